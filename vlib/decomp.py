"""Generator and model of a domain-decomposed FMS data set."""
import numpy as np
from hypothesis import strategies as st
from . import ncio
from .ncio import DS, DT

NAMES = {"x": "grid_xt", "y": "grid_yt", "xq": "grid_x", "yq": "grid_y", "z": "pfull", "b": "nv", "t": "time"}


def draw_partition(draw, n, p):
    """p positive segment lengths adding up to n."""
    if p == 1:
        return [n]
    cuts = draw(st.lists(st.integers(1, n - 1), min_size=p - 1, max_size=p - 1, unique=True))
    cuts = [0] + sorted(cuts) + [n]
    return [cuts[i + 1] - cuts[i] for i in range(p)]


ORDER = ["t", "b", "z", "yq", "y", "xq", "x"]


def draw_dataset(draw, types=("byte", "char", "short", "int", "float", "double"), allow_drop=True, maxn=9):
    c = {}
    # one case in ten is large in one direction (pieces, points, levels, records, variables)
    big = draw(st.sampled_from([None] * 40 + ["pieces", "points", "nz", "rec", "vars"])) if maxn < 50 else None
    px = draw(st.integers(1, 4 if big != "pieces" else 16))
    py = draw(st.integers(1, 3 if big != "pieces" else 9))
    nx = draw(st.integers(px, maxn if big not in ("pieces", "points") else max(maxn, 90 if big == "points" else 20)))
    ny = draw(st.integers(py, maxn if big not in ("pieces", "points") else max(maxn, 90 if big == "points" else 20)))
    c["xs"] = draw_partition(draw, nx, px)
    c["ys"] = draw_partition(draw, ny, py)
    c["decx"] = True if px > 1 else draw(st.booleans())
    c["decy"] = True if py > 1 else draw(st.booleans())
    c["stagx"] = draw(st.booleans())
    c["stagy"] = draw(st.booleans())
    c["gs"] = draw(st.sampled_from([1, 1, 1, 0, 5, -2]))
    c["nz"] = draw(st.integers(1, 4 if big != "nz" else 70))
    c["nrec"] = draw(st.sampled_from([None, 1, 2, 3, 4, 7, 0] if big != "rec" else [13, 31, 60, 101, 101, 120]))
    # coordinate variables may be defined before, after or between the others
    nv = draw(st.integers(1, 5 if big != "vars" else 30))
    vs = []
    avail = ["x", "y", "z", "b"] + (["xq"] if c["stagx"] else []) + (["yq"] if c["stagy"] else [])
    for i in range(nv):
        rec = c["nrec"] is not None and draw(st.booleans())
        shape = draw(st.sampled_from(["yx", "yx", "any", "scalar", "zyx", "bzyx"]))
        xs = "xq" if c["stagx"] and draw(st.booleans()) else "x"
        ys = "yq" if c["stagy"] and draw(st.booleans()) else "y"
        if shape == "yx":
            d = [ys, xs]
        elif shape == "zyx":
            d = ["z", ys, xs]
        elif shape == "bzyx":
            d = ["b", "z", ys, xs]
        elif shape == "scalar":
            d = []
        else:
            d = draw(st.permutations(avail))[:draw(st.integers(1, 3))]
        if rec:
            d = ["t"] + list(d)
        d = list(d)[:4]
        ty = draw(st.sampled_from(types))
        a = draw(st.sampled_from(["none", "none", "missing", "fill", "both", "text"]))
        vs.append(dict(dims=d, type=ty, att=a))
    c["vars"] = vs
    c["coordpos"] = draw(st.sampled_from(["first", "last", "mixed"]))
    c["timevar"] = draw(st.booleans())
    c["xvar"] = True
    c["seed"] = draw(st.integers(0, 2 ** 31))
    c["gatts"] = draw(st.sampled_from([0, 1, 2]))
    npieces = px * py
    c["drop"] = []
    if allow_drop and npieces > 1 and draw(st.sampled_from([False, False, False, True])):
        c["drop"] = sorted(draw(st.sets(st.integers(1, npieces - 1), min_size=1, max_size=npieces - 1)))
    return c


def global_ds(c):
    """The global data set (before decomposition)."""
    rng = np.random.default_rng(c["seed"])
    ds = DS()
    nx, ny = sum(c["xs"]), sum(c["ys"])
    size = {"x": nx, "y": ny, "xq": nx + 1, "yq": ny + 1, "z": c["nz"], "b": 2, "t": c["nrec"]}
    used = ["x", "y", "z", "b"] + (["xq"] if c["stagx"] else []) + (["yq"] if c["stagy"] else [])
    dl = list(used)
    if c["nrec"] is not None and (c["timevar"] or any("t" in v["dims"] for v in c["vars"])):
        dl.append("t")
    dl = [dl[i] for i in rng.permutation(len(dl))]
    for d in dl:
        ds.add_dim(NAMES[d], size[d], d == "t")
    coords, others = [], []
    ax = {"x": "X", "xq": "X", "y": "Y", "yq": "Y", "z": "Z"}
    for d in dl:
        if d in ("x", "y", "xq", "yq", "z") or (d == "t" and c["timevar"]):
            ty = "double" if d != "z" else "float"
            v = np.sort(rng.random(size[d]) * 360).astype(DT[ty])
            at = {"long_name": "coordinate " + d, "axis": ax.get(d, "T")}
            at["units"] = {"X": "degrees_E", "Y": "degrees_N", "Z": "mb", "T": "days since 0001-01-01 00:00:00"}[at["axis"]]
            coords.append((NAMES[d], ncio.Var(ty, (NAMES[d],), v, at)))
    for i, v in enumerate(c["vars"]):
        shape = tuple(size[d] for d in v["dims"])
        data = ncio.rand_data(rng, v["type"], shape)
        at = {}
        if v["att"] in ("missing", "both"):
            at["missing_value"] = mval(v["type"])
        if v["att"] in ("fill", "both"):
            at["_FillValue"] = mval(v["type"])
        if v["att"] == "text":
            at["long_name"] = "variable %d" % i
            at["valid_range"] = np.array([-1.5, 1e3], dtype="f4")
            at["flag"] = np.int16(3)
        nm = ["var%d", "var%d", "var%d", "VaR.%d", "u-%d+x", "a%d" + "_long_name" * 11, "v%d" + "z" * 62, "w%d" + "q" * 126][(c["seed"] // 7 + i * (c["seed"] % 5)) % 8] % i
        others.append((nm, ncio.Var(v["type"], [NAMES[d] for d in v["dims"]], data, at)))
    if c["coordpos"] == "first":
        seq = coords + others
    elif c["coordpos"] == "last":
        seq = others + coords
    else:
        seq = coords + others
        seq = [seq[i] for i in rng.permutation(len(seq))]
    for n, v in seq:
        ds.vars[n] = v
    if c["gatts"] >= 1:
        ds.attrs["title"] = "a title"
        ds.attrs["filename"] = "orig.nc"
    if c["gatts"] >= 2:
        ds.attrs["vals"] = np.array([1.0, 2.5, -3.0])
        ds.attrs["one"] = np.int32(7)
    return ds


def mval(ty):
    return {"byte": np.int8(-77), "char": b"~", "short": np.int16(-9999), "int": np.int32(-999999),
            "float": np.float32(1e20), "double": np.float64(-1e34)}[ty]


def extents(c):
    """per axis: {key: [(start, end), ...]} zero-based inclusive"""
    e = {}
    for ax, segs in (("x", c["xs"]), ("y", c["ys"])):
        s, l = 0, []
        for n in segs:
            l.append((s, s + n - 1))
            s += n
        e[ax] = l
        # staggered axis: the last segment has one more point
        e[ax + "q"] = l[:-1] + [(l[-1][0], l[-1][1] + 1)]
    return e


def build_pieces(c):
    g = global_ds(c)
    ext = extents(c)
    inv = {v: k for k, v in NAMES.items()}
    dec = {"x": c["decx"], "xq": c["decx"], "y": c["decy"], "yq": c["decy"]}
    pieces = []
    n = 0
    keep = []
    for iy in range(len(c["ys"])):
        for ix in range(len(c["xs"])):
            if n not in c["drop"]:
                keep.append((ix, iy))
            n += 1
    for ix, iy in keep:
        p = DS()
        p.attrs.update(g.attrs)
        if not c.get("nonum"):
            p.attrs["NumFilesInSet"] = np.int32(len(keep))
        rg = {}
        for d, ln in g.dims.items():
            k = inv[d]
            if dec.get(k):
                rg[d] = ext[k][ix if k[0] == "x" else iy]
                p.add_dim(d, rg[d][1] - rg[d][0] + 1)
            else:
                p.add_dim(d, ln, d in g.unlim)
        for name, v in g.vars.items():
            sl = tuple(slice(rg[d][0], rg[d][1] + 1) if d in rg else slice(None) for d in v.dims)
            at = dict(v.attrs)
            if name in g.dims and name in rg:
                gs = c["gs"]
                at["domain_decomposition"] = np.array([gs, gs + g.dims[name] - 1, gs + rg[name][0], gs + rg[name][1]], dtype="i4")
            p.vars[name] = ncio.Var(v.dtype, v.dims, v.data[sl] if v.dims else v.data, at)
        p.cover = rg
        pieces.append(p)
    return pieces


def build_expected(c, missing, outname, pieces):
    """What the combine must produce from these pieces (uncovered points: 0, or missing_value with -m)."""
    g = global_ds(c)
    if "filename" in g.attrs:
        g.attrs["filename"] = outname
    for name, v in g.vars.items():
        if not any(d in p.cover for p in pieces for d in v.dims):
            continue
        seen = np.zeros(v.data.shape, bool)
        for p in pieces:
            sl = tuple(slice(p.cover[d][0], p.cover[d][1] + 1) if d in p.cover else slice(None) for d in v.dims)
            seen[sl] = True
        if not seen.all():
            if missing and "missing_value" in v.attrs:
                fill = v.attrs["missing_value"]
            else:
                fill = b"" if v.dtype == "char" else 0
            d = v.data.copy()
            d[~seen] = fill
            v.data = d
    return g
