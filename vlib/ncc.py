"""Generator of compressed-by-gathering data sets (land restarts)."""
import numpy as np
from hypothesis import strategies as st
from . import ncio
from .ncio import DS, DT, Var

FILL = {"byte": np.int8(-127), "char": b"", "short": np.int16(-32767), "int": np.int32(-2147483647),
        "float": np.float32(9.9692099683868690e+36), "double": np.float64(9.9692099683868690e+36)}
FMTS = ["NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF4_CLASSIC", "NETCDF4"]


def draw_set(draw, kind):
    """kind: combine | decompress | scatter"""
    c = {}
    if kind == "scatter":
        c["pi"], c["pj"] = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        c["nlon"] = c["pi"] * draw(st.integers(1, 4))
        c["nlat"] = c["pj"] * draw(st.integers(1, 4))
        c["nfiles"] = 1
    else:
        c["nlon"], c["nlat"] = draw(st.integers(1, 6)), draw(st.integers(1, 5))
        c["nfiles"] = draw(st.integers(1, 5))
    c["ntile"] = draw(st.integers(1, 3))
    c["nco"] = draw(st.integers(1, 2))
    c["nz"] = draw(st.integers(1, 4))
    c["nrec"] = draw(st.sampled_from([None, 1, 2, 3] + ([0] if kind != "decompress" else [])))
    cd = draw(st.sampled_from([["tile_index"], ["tile_index"], ["tile_index", "cohort_index"], ["pt"]]))
    c["cdims"] = {}
    for d in cd:
        full = {"tile_index": c["ntile"], "cohort_index": c["nco"] * c["ntile"], "pt": 1}[d] * c["nlon"] * c["nlat"]
        c["cdims"][d] = dict(n=draw(st.integers(0, full)), neg=draw(st.sampled_from([0, 0, 0, 1, 2])),
                             sort=draw(st.booleans()), empty=draw(st.sampled_from([False, False, False, True])))
    vs = []
    for i in range(draw(st.integers(1, 5))):
        rec = c["nrec"] is not None and draw(st.booleans())
        comp = draw(st.booleans()) or i == 0
        d = []
        if comp:
            d.append(draw(st.sampled_from(cd)))
        if kind == "scatter":
            d = (["zfull"] if comp and draw(st.booleans()) else []) + d
            if not comp and not rec and draw(st.booleans()):
                d = [draw(st.sampled_from(["lon", "lat", "zfull", "band"]))]
        else:
            for x in draw(st.sets(st.sampled_from(["zfull", "band"] + ([] if comp else ["lon", "lat"])), max_size=2)):
                d.insert(draw(st.integers(0, len(d))), x)
            if kind == "decompress" and comp and "cohort_index" in cd and draw(st.sampled_from([False] * 5 + [True])):
                pass
        types = ["double", "float", "int", "short", "byte"]
        if kind == "combine" and not comp:
            types = types + ["char"]
        ty = draw(st.sampled_from(types))
        att = draw(st.sampled_from(["none", "missing", "fill", "both"]))
        if kind == "decompress" and ty in ("short", "byte") and comp and att == "none":
            att = "missing"
        vs.append(dict(dims=(["time"] if rec else []) + d, type=ty, att=att, ocean=kind == "decompress" and draw(st.sampled_from([False, False, True]))))
    c["vars"] = vs
    c["coordlast"] = draw(st.booleans())
    c["fmt"] = draw(st.sampled_from(FMTS))
    c["seed"] = draw(st.integers(0, 2 ** 31))
    c["v"] = draw(st.sampled_from([None, None, None, 1, 2]))
    return c


COMPRESS = {"tile_index": ("tile", "lat", "lon"), "cohort_index": ("cohort", "tile", "lat", "lon"), "pt": ("lat", "lon")}


def finite(rng, ty, shape):
    a = ncio.rand_data(rng, ty, shape)
    if a.dtype.kind == "f":
        a = np.where(np.isfinite(a), a, 12.5).astype(a.dtype)
    return a


def mval(ty):
    return {"byte": np.int8(-77), "char": b"~", "short": np.int16(-9999), "int": np.int32(-999999),
            "float": np.float32(1e20), "double": np.float64(-1e34)}[ty]


def build(c):
    """-> list of DS (files), per compressed dimension the list of index arrays of the files"""
    rng = np.random.default_rng(c["seed"])
    size = {"lon": c["nlon"], "lat": c["nlat"], "tile": c["ntile"], "cohort": c["nco"], "zfull": c["nz"], "band": 2}
    idx = {}
    nf = c["nfiles"]
    for d, q in c["cdims"].items():
        full = int(np.prod([size[x] for x in COMPRESS[d]]))
        pts = rng.permutation(full)[:min(q["n"], full)]
        who = rng.integers(0, nf, len(pts))
        if q["empty"] and nf > 1:
            who[who == 0] = nf - 1
        l = []
        for f in range(nf):
            p = pts[who == f]
            p = np.sort(p) if q["sort"] else p
            neg = np.full(q["neg"] if rng.random() < 0.6 else 0, -1, dtype="i8")
            if len(neg) and rng.random() < 0.3:
                neg[:] = -2147483647
            p = np.concatenate([p, neg]) if rng.random() < 0.5 else np.concatenate([neg, p])
            if len(p) == 0:
                p = np.array([-1 if rng.random() < 0.5 else -2147483647])   # a domain without points
            l.append(p.astype("i4"))
        idx[d] = l
    dimorder = list(size) + list(c["cdims"]) + (["time"] if c["nrec"] is not None else [])
    dimorder = [dimorder[i] for i in rng.permutation(len(dimorder))]
    base = {d: np.sort(finite(rng, "double", (n,))) for d, n in size.items()}
    files = []
    shared = {}
    for f in range(nf):
        ds = DS()
        for d in dimorder:
            if d == "time":
                ds.add_dim(d, c["nrec"], True)
            elif d in idx:
                ds.add_dim(d, len(idx[d][f]))
            else:
                ds.add_dim(d, size[d])
        coords, others = [], []
        for d in ("lon", "lat", "zfull"):
            coords.append((d, Var("double", (d,), base[d], {"units": "m", "long_name": d})))
        for d in idx:
            coords.append((d, Var("int", (d,), idx[d][f], {"compress": " ".join(COMPRESS[d]), "units": ""} if c["seed"] % 2 else
                                  {"compress": " ".join(COMPRESS[d])})))
        if c["nrec"] is not None:
            coords.append(("time", Var("double", ("time",), np.arange(c["nrec"]) + 0.25, {"units": "days"})))
        for i, v in enumerate(c["vars"]):
            shape = tuple(ds.dims[d] for d in v["dims"])
            comp = any(d in idx for d in v["dims"])
            if comp or i not in shared:
                data = finite(rng, v["type"], shape)
                if not comp:
                    shared[i] = data
            else:
                data = shared[i]
            a = {}
            if v["att"] in ("missing", "both"):
                a["missing_value"] = mval(v["type"])
            if v["att"] in ("fill", "both"):
                a["_FillValue"] = mval(v["type"])
            if v.get("ocean") and v["type"] != "char":
                a["ocean_fillvalue"] = np.array(-5, DT[v["type"]])
            a["long_name"] = "v %d" % i
            others.append(("var%d" % i, Var(v["type"], v["dims"], data, a)))
        for n, v in (others + coords if c["coordlast"] else coords + others):
            v.attrs = {k: x for k, x in v.attrs.items() if not (isinstance(x, str) and x == "")}
            ds.vars[n] = v
        ds.attrs["title"] = "land"
        ds.attrs["num"] = np.array([1.5, 2.5])
        files.append(ds)
    return files, idx, size


def combined(files, idx):
    """What combine-ncc must produce."""
    out = DS()
    last = files[-1]
    out.attrs.update(last.attrs)
    order = {}
    for d, n in last.dims.items():
        if d in idx:
            cat = np.concatenate(idx[d])
            o = np.argsort(cat, kind="stable")
            o = o[cat[o] >= 0]
            order[d] = o
            out.add_dim(d, max(1, len(o)))
        else:
            out.add_dim(d, n, d in last.unlim)
    for n, v in last.vars.items():
        cd = [d for d in v.dims if d in idx]
        if not cd:
            out.vars[n] = Var(v.dtype, v.dims, v.data, v.attrs)
            continue
        ax = v.dims.index(cd[0])
        o = order[cd[0]]
        if len(o) == 0:
            shp = tuple(out.dims[d] for d in v.dims)
            data = np.full(shp, v.attrs.get("_FillValue", FILL[v.dtype]), dtype=DT[v.dtype])
        else:
            data = np.take(np.concatenate([f.vars[n].data for f in files], axis=ax), o, axis=ax)
        out.vars[n] = Var(v.dtype, v.dims, data, v.attrs)
    return out


def decompressed(files, idx, size, add_missing=False):
    last = files[-1]
    out = DS()
    out.attrs.update(last.attrs)
    for d, n in last.dims.items():
        if d not in idx:
            out.add_dim(d, n, d in last.unlim)
    for n, v in last.vars.items():
        if n in idx:
            continue
        cd = [d for d in v.dims if d in idx]
        a = dict(v.attrs)
        if not cd:
            out.vars[n] = Var(v.dtype, v.dims, v.data, a)
            continue
        miss = a.get("missing_value", a.get("_FillValue", FILL[v.dtype]))
        if add_missing and "missing_value" not in a and "_FillValue" not in a:
            a["missing_value"] = np.array(miss, DT[v.dtype])
        if "ocean_fillvalue" in a:
            miss = a["ocean_fillvalue"]
        d = cd[0]
        ax = v.dims.index(d)
        full = int(np.prod([size[x] for x in COMPRESS[d]]))
        shp = list(v.data.shape)
        shp[ax] = full
        data = np.full(shp, miss, dtype=DT[v.dtype])
        dm = np.moveaxis(data, ax, 0)
        for f, ix in zip(files, idx[d]):
            src = np.moveaxis(f.vars[n].data, ax, 0)
            ok = ix >= 0
            dm[ix[ok]] = src[ok]
        dims = list(v.dims[:ax]) + list(COMPRESS[d]) + list(v.dims[ax + 1:])
        data = np.ascontiguousarray(data).reshape([size.get(x, last.dims.get(x)) for x in dims])
        out.vars[n] = Var(v.dtype, dims, data, a)
    return out
