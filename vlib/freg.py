"""Sources and targets for fregrid: longitude-latitude mosaics, data files, exact overlaps."""
import os
import numpy as np
from . import grid, ncio
from .ncio import DS

D = np.pi / 180.0
R2 = 6371.0e3 ** 2
NP = {"double": "f8", "float": "f4", "int": "i4", "short": "i2"}
MISS = {"double": 1e20, "float": float(np.float32(-1e10)), "int": -999999, "short": -32768}


def mid(c):
    c = np.asarray(c, float)
    out = np.empty(2 * len(c) - 1)
    out[::2] = c
    out[1::2] = 0.5 * (c[1:] + c[:-1])
    return out


def cut(lons, lats, how):
    """tiles [(j0, j1, i0, i1)] of a longitude-latitude grid; how = None, ('x', k) or ('y', k)"""
    nx, ny = len(lons) - 1, len(lats) - 1
    if not how:
        return [(0, ny, 0, nx)]
    ax, k = how
    n = nx if ax == "x" else ny
    if n < 2:
        return [(0, ny, 0, nx)]
    k = 1 + k % (n - 1)
    return [(0, ny, 0, k), (0, ny, k, nx)] if ax == "x" else [(0, k, 0, nx), (k, ny, 0, nx)]


def write_mosaic(d, name, lons, lats, tiles, gattrs=None):
    """grid files and mosaic of lon-lat tiles; returns mosaic path"""
    os.makedirs(d, exist_ok=True)
    X, Y = np.meshgrid(mid(lons), mid(lats))
    files, names = [], []
    for t, (j0, j1, i0, i1) in enumerate(tiles):
        tn = "tile%d" % (t + 1)
        f = "%s_grid.%s.nc" % (name, tn)
        sl = (slice(2 * j0, 2 * j1 + 1), slice(2 * i0, 2 * i1 + 1))
        grid.hgrid(os.path.join(d, f), X[sl], Y[sl], tn, gattrs=gattrs)
        files.append(f)
        names.append(tn)
    p = os.path.join(d, name + ".nc")
    grid.mosaic(p, name, files, names, gattrs=gattrs)
    return p


def lon_overlap(a, b):
    """overlap in radians of the cells between corners a and of the cells between corners b, around the circle"""
    a, b = np.asarray(a), np.asarray(b)
    w = np.zeros((len(a) - 1, len(b) - 1))
    for s in range(-3, 4):
        lo = np.maximum(a[:-1, None], b[None, :-1] + 360 * s)
        hi = np.minimum(a[1:, None], b[None, 1:] + 360 * s)
        w += np.maximum(hi - lo, 0)
    return w * D


def lat_overlap(a, b):
    a, b = np.asarray(a), np.asarray(b)
    lo = np.maximum(a[:-1, None], b[None, :-1])
    hi = np.minimum(a[1:, None], b[None, 1:])
    return np.where(hi > lo, np.sin(hi * D) - np.sin(lo * D), 0.0)


def cell_area(lons, lats):
    return np.outer(np.diff(np.sin(np.asarray(lats) * D)), np.diff(np.asarray(lons)) * D)


def field_data(f, shape):
    """raw (packed) values and mask of a field over `shape`, the last two the grid"""
    rng = np.random.default_rng(f["seed"])
    t = f["dtype"]
    if f["shape"] == "const":
        v = np.full(shape, float(rng.integers(-40, 40)) if t in ("int", "short") else rng.uniform(-300, 300))
    elif f["shape"] == "level":
        v = np.zeros(shape) + rng.integers(-500, 500, shape[:-2] + (1, 1))
    elif f["shape"] == "point":
        v = np.zeros(shape)
        v[..., rng.integers(shape[-2]), rng.integers(shape[-1])] = 100
    else:
        v = rng.uniform(-1000, 1000, shape)
    if t in ("int", "short"):
        v = np.rint(v)
    m = np.zeros(shape, bool)
    if f["miss"]:
        q = rng.choice([0.1, 0.4, 0.8])
        m = rng.random(shape) < q
    v = v.astype(NP[t])
    v[m] = MISS[t]
    return v, m


def axis(ds, ax, c, std=False):
    """time / z / diurnal axes used by the fields"""
    if ax == "t":
        nt = c["nt"]
        tb = np.cumsum([3.0] + [1.0 + (i * 7) % 5 for i in range(nt)])
        ds.add_dim("time", nt, True)
        at = dict(long_name="time", units="days since 2000-01-01 00:00:00", cartesian_axis="T", calendar="JULIAN")
        if c["tbnd"]:
            at["bounds"] = "time_bnds"
        ds.add("time", "double", ("time",), 0.5 * (tb[1:] + tb[:-1]), **at)
        if c["tbnd"]:
            ds.add_dim("nv", 2)
            ds.add("nv", "double", ("nv",), np.array([1.0, 2.0]), long_name="vertex number", cartesian_axis="N")
            ds.add("time_bnds", "double", ("time", "nv"), np.stack([tb[:-1], tb[1:]], 1), long_name="time axis boundaries", units="days")
    elif ax == "z":
        nz = c["nz"]
        z = np.array([1000.0 / (k + 1) for k in range(nz)])
        ds.add_dim("level", nz)
        at = dict(long_name="pressure", units="hPa", cartesian_axis="Z", positive="down")
        if c["zedge"]:
            at["edges"] = "level_edges"
        ds.add("level", "double", ("level",), z, **at)
        if c["zedge"]:
            ds.add_dim("level_edges", nz + 1)
            ds.add("level_edges", "double", ("level_edges",), np.concatenate([z + 5, [1.0]]), long_name="edges", cartesian_axis="Z")
    elif ax == "n":
        ds.add_dim("hour", c["nn"])
        ds.add("hour", "double", ("hour",), np.arange(c["nn"]) + 0.5, long_name="hour of day", cartesian_axis="N")
