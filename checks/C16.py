"""fregrid: first order conservative remapping between longitude-latitude mosaics, against exact overlaps."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio, freg
from vlib.freg import MISS, NP, D

ID = "C16"
QUICK, THOROUGH = 1300, 40000
RULE = ("Generated longitude-latitude sources (regular or irregular, global or regional, any origin, one or two tiles) with 1-3 fields (four types, packed, "
        "missing, level/time/diurnal axes, mean or sum cell method, interp_method attributes) and targets (by size or mosaic, any origin and region, one or two tiles); "
        "every value, axis and bound of the result is compared with exact spherical overlaps in numpy; non-trivial = at least one target cell mixes several source values.")
ASSUMPTIONS = ["cells are at most 60 degrees wide and overlaps of less than 1e-6 of a cell are not told apart from none (documented threshold of the clipping)",
               "values to 1e-9 of the range of the source (1e-5 where a sliver was dropped), float to single precision, integers to the nearest"]
FMT = {"NETCDF3_CLASSIC": "classic", "NETCDF3_64BIT_OFFSET": "64bit_offset", "NETCDF4": "netcdf4", "NETCDF4_CLASSIC": "netcdf4_classic"}


@st.composite
def axis1(draw, lo, hi, nmin, nmax, wmax):
    """corners from lo to hi"""
    n = draw(st.integers(max(nmin, int(np.ceil((hi - lo) / wmax - 1e-9))), nmax))
    if draw(st.booleans()):
        w = np.array([draw(st.integers(2, 8)) for _ in range(n)], float)
        w = w / w.sum()
        if (hi - lo) * w.max() <= wmax:
            return [float(v) for v in np.concatenate([[lo], lo + (hi - lo) * np.cumsum(w)[:-1], [hi]])]
    return [float(v) for v in np.linspace(lo, hi, n + 1)]


@st.composite
def llgrid(draw, size=False):
    lo = draw(st.sampled_from([0.0, 0.0, -180.0, -280.0, 20.0, 33.75, 359.0]))
    span = draw(st.sampled_from([360.0, 360.0, 360.0, 90.0, 200.5, 300.0]))
    a = draw(st.sampled_from([-90.0, -90.0, -90.0, -60.0, -80.25, 10.0]))
    b = draw(st.sampled_from([90.0, 90.0, 90.0, 60.0, 75.5]))
    if size:
        n = draw(st.integers(max(3, int(np.ceil(span / 60))), 14))
        m = draw(st.integers(1, 10))
        return {"lons": [float(v) for v in lo + span / n * np.arange(n + 1)], "lats": [float(v) for v in a + (b - a) / m * np.arange(m + 1)], "cut": None,
                "size": [n, m, lo, lo + span, a, b]}
    return {"lons": draw(axis1(lo, lo + span, 3, 12, 60.0)), "lats": draw(axis1(a, b, 1, 9, 180.0)),
            "cut": draw(st.sampled_from([None, None, None, ["x", 2], ["y", 1], ["x", 5]])), "size": None}


@st.composite
def field(draw, k):
    t = draw(st.sampled_from(["double", "double", "float", "int", "short", "short"]))
    f = {"name": ["t_surf", "q", "u10"][k], "dtype": t, "dims": draw(st.sampled_from(["", "t", "tz", "z", "tz", "tn", "tnz"])),
         "miss": draw(st.sampled_from([None, None, "missing_value", "_FillValue", "both"])),
         "shape": draw(st.sampled_from(["const", "level", "point", "rand", "rand", "rand"])), "seed": draw(st.integers(0, 10 ** 6)),
         "method": draw(st.sampled_from([None, None, None, "area: mean", "area: sum", "time: mean area: sum"])),
         "im": draw(st.sampled_from([None, None, None, "conserve_order1", "none", "None"])), "pack": None}
    f["meas"] = draw(st.sampled_from([False, False, True]))
    if t == "short":
        f["pack"] = draw(st.sampled_from([None, [0.1, 273.15], [0.5, 0], [0.01, -7.0], [0, 100.0]]))
    return f


@st.composite
def cases(draw):
    c = {"src": draw(llgrid()), "dst": draw(st.one_of(llgrid(), llgrid(True), llgrid(True)))}
    c["fields"] = [draw(field(k)) for k in range(draw(st.integers(1, 3)))]
    c["nt"], c["nz"], c["nn"] = draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 3))
    c["tbnd"], c["zedge"] = draw(st.booleans()), draw(st.booleans())
    c["xtype"] = draw(st.sampled_from(["double", "double", "int", "float"]))
    c["xbnd"] = draw(st.sampled_from([None, None, "bounds", "edges"])) if c["xtype"] != "int" else None
    c["xname"] = draw(st.sampled_from([["grid_xt", "grid_yt"], ["lon", "lat"]]))
    c["k"] = draw(st.sampled_from([None, None, [0, 0], [1, 0], [1, 1], [0, 1]]))
    c["l"] = draw(st.sampled_from([None, None, [0, 0], [1, 0], [1, 1], [0, 1]]))
    c["weight"] = draw(st.sampled_from([None, None, None, "in", "file"]))
    c["target"] = draw(st.sampled_from([False, False, True]))
    c["std"] = draw(st.booleans())
    c["infmt"] = draw(st.sampled_from(list(FMT)))
    c["outfmt"] = draw(st.sampled_from([None, None] + list(FMT)))
    c["suffix"] = [draw(st.booleans()), draw(st.booleans())]
    c["defl"] = draw(st.sampled_from([None, None, 0, 3]))
    c["extra"] = draw(st.sampled_from([None, None, "avgdt"]))
    c["first"] = draw(st.booleans())
    c["assoc"], c["area_t"] = draw(st.booleans()), draw(st.booleans())
    c["gc"] = draw(st.sampled_from([False, False, False, False, True]))
    return c


def strategy(tier):
    return cases()


def fixup(c):
    """what the options need"""
    fs = c["fields"]
    if all((f["im"] or "").lower() == "none" for f in fs):
        fs[0]["im"] = None
    for f in fs:
        if c["weight"] and f["method"] and "sum" in f["method"]:
            f["method"] = None          # weights of a sum are not defined
        if c["target"]:
            f["miss"] = None            # scaling by covered area is defined for complete fields
    if c["target"]:
        c["weight"] = None
    if c["weight"]:
        for f in fs:
            f["meas"] = False           # cell measures take the place of weights
    if any(f["meas"] and "t" not in f["dims"] for f in fs):
        c["area_t"] = False
    live = [f for f in fs if (f["im"] or "").lower() != "none"]
    if c["k"] is not None:
        if not any("z" in f["dims"] for f in live):
            c["k"] = None
        else:
            a = min(c["k"][0], c["nz"] - 1)
            c["k"] = [a + 1, min(a + c["k"][1], c["nz"] - 1) + 1]
    if c["l"] is not None:
        if not any("t" in f["dims"] for f in live):
            c["l"] = None
        else:
            a = min(c["l"][0], c["nt"] - 1)
            c["l"] = [a + 1, min(a + c["l"][1], c["nt"] - 1) + 1]
    if not any("t" in f["dims"] for f in live):
        c["extra"] = None
    if c["gc"]:
        c["gc"] = False                 # great circle sides are not parallels: see C17
    return live


def setup(c, ctx):
    """write everything; returns (arguments, source data by field, source tiles)"""
    s = c["src"]
    tiles = freg.cut(s["lons"], s["lats"], s["cut"])
    src = freg.write_mosaic(ctx.path("in"), "src_mosaic", s["lons"], s["lats"], tiles)
    ny, nx = len(s["lats"]) - 1, len(s["lons"]) - 1
    xn, yn = c["xname"]
    ax = {"t": ("time", c["nt"]), "z": ("level", c["nz"]), "n": ("hour", c["nn"])}
    data = {}
    for f in c["fields"]:
        data[f["name"]] = freg.field_data(f, tuple(ax[d][1] for d in f["dims"]) + (ny, nx))
    wt = np.random.default_rng(c["fields"][0]["seed"] + 1).uniform(0, 1, (ny, nx))
    wt[wt < 0.2] = 0
    area = None
    if any(f["meas"] for f in c["fields"]):
        area = freg.cell_area(s["lons"], s["lats"]) * freg.R2 * np.random.default_rng(c["fields"][0]["seed"] + 2).uniform(0.1, 1, ((c["nt"],) if c["area_t"] else ()) + (ny, nx))
    for n, (j0, j1, i0, i1) in enumerate(tiles):
        ds = ncio.DS()
        ds.attrs["title"] = "source"
        used = set("".join(f["dims"] for f in c["fields"]))
        for a in "tzn":
            if a in used:
                freg.axis(ds, a, c)
        if c["xbnd"] == "bounds" and "nv" not in ds.dims:
            ds.add_dim("nv", 2)
            ds.add("nv", "double", ("nv",), np.array([1.0, 2.0]), cartesian_axis="N")
        for nm, cart, cor in ((xn, "X", s["lons"][i0:i1 + 1]), (yn, "Y", s["lats"][j0:j1 + 1])):
            cor = np.array(cor)
            n1 = len(cor) - 1
            ds.add_dim(nm, n1)
            at = dict(long_name="T-cell", units="degrees", cartesian_axis=cart)
            v = 0.5 * (cor[1:] + cor[:-1]) if c["xtype"] != "int" else np.arange(n1) + 1
            if c["xbnd"]:
                at["bounds" if c["xbnd"] == "bounds" else "edges"] = nm + "_b"
            ds.add(nm, c["xtype"], (nm,), v.astype(NP[c["xtype"]]), **at)
            if c["xbnd"] == "bounds":
                ds.add(nm + "_b", c["xtype"], (nm, "nv"), np.stack([cor[:-1], cor[1:]], 1).astype(NP[c["xtype"]]), long_name="b")
            elif c["xbnd"] == "edges":
                ds.add_dim(nm + "_b", n1 + 1)
                ds.add(nm + "_b", c["xtype"], (nm + "_b",), cor.astype(NP[c["xtype"]]), long_name="e", cartesian_axis=cart)
        for f in c["fields"]:
            at = dict(long_name=f["name"], units="K")
            if f["miss"] in ("missing_value", "both"):
                at["missing_value"] = np.array([MISS[f["dtype"]]], NP[f["dtype"]])
            if f["miss"] in ("_FillValue", "both"):
                at["_FillValue"] = np.array([MISS[f["dtype"]]], NP[f["dtype"]])
            if f["pack"]:
                if f["pack"][0]:
                    at["scale_factor"] = f["pack"][0]
                if f["pack"][1]:
                    at["add_offset"] = f["pack"][1]
            if f["method"]:
                at["cell_methods"] = f["method"]
            if f["im"]:
                at["interp_method"] = f["im"]
            if f["meas"]:
                at["cell_measures"] = "area: area_t"
            ds.add(f["name"], f["dtype"], tuple(ax[d][0] for d in f["dims"]) + (yn, xn), data[f["name"]][0][..., j0:j1, i0:i1], **at)
        if c["extra"]:
            ds.add("avgdt", "double", ("time",), np.arange(c["nt"]) * 1.5 + 1, long_name="Length of average period", units="days")
        if area is not None:
            da = ds
            if c["assoc"]:
                da = ncio.DS()
                if c["area_t"]:
                    freg.axis(da, "t", dict(c, tbnd=False))
                for nm, cart, k in ((xn, "X", i1 - i0), (yn, "Y", j1 - j0)):
                    da.add_dim(nm, k)
                    da.add(nm, "double", (nm,), np.arange(k) + 1.0, cartesian_axis=cart)
                ds.attrs["associated_files"] = "other: none.nc area_t: areas.nc"
            da.add("area_t", "double", (("time",) if c["area_t"] else ()) + (yn, xn), area[..., j0:j1, i0:i1], long_name="area", units="m2")
            if c["assoc"]:
                da.write(ctx.path("in", "areas.nc" if len(tiles) == 1 else "areas.tile%d.nc" % (n + 1)))
        if c["weight"] == "in":
            ds.add("frac", "double", (yn, xn), wt[j0:j1, i0:i1], long_name="weight")
        p = "src.nc" if len(tiles) == 1 else "src.tile%d.nc" % (n + 1)
        ds.write(ctx.path("in", p), c["infmt"])
        if c["weight"] == "file":
            dw = ncio.DS()
            for nm, k in ((xn, i1 - i0), (yn, j1 - j0)):
                dw.add_dim(nm, k)
            dw.add("frac", "double", (yn, xn), wt[j0:j1, i0:i1], long_name="weight")
            dw.write(ctx.path("in", "w.nc" if len(tiles) == 1 else "w.tile%d.nc" % (n + 1)))
    d = c["dst"]
    args = ["--input_mosaic", src, "--input_dir", ctx.path("in"), "--input_file", "src.nc" if c["suffix"][0] else "src",
            "--scalar_field", ",".join(([c["extra"]] if c["extra"] and c["first"] else []) + [f["name"] for f in c["fields"]] + ([c["extra"]] if c["extra"] and not c["first"] else [])),
            "--output_file", "out.nc" if c["suffix"][1] else "out"]
    dt = freg.cut(d["lons"], d["lats"], d["cut"])
    if d["size"]:
        n, m, lo, hi, a, b = d["size"]
        args += ["--nlon", str(n), "--nlat", str(m)]
        for o, v, dflt in (("lonBegin", lo, 0.0), ("lonEnd", hi, 360.0), ("latBegin", a, -90.0), ("latEnd", b, 90.0)):
            if v != dflt:
                args += ["--" + o, repr(v)]
    else:
        args += ["--output_mosaic", freg.write_mosaic(ctx.path("dst"), "dst_mosaic", d["lons"], d["lats"], dt)]
    if c["k"]:
        args += ["--KlevelBegin", str(c["k"][0]), "--KlevelEnd", str(c["k"][1])]
    if c["l"]:
        args += ["--LstepBegin", str(c["l"][0]), "--LstepEnd", str(c["l"][1])]
    if c["weight"]:
        args += ["--weight_field", "frac"]
    if c["weight"] == "file":
        args += ["--weight_file", ctx.path("in", "w.nc" if len(tiles) == 1 else "w")]
    if area is not None and c["assoc"]:
        args += ["--associated_file_dir", ctx.path("in")]
    if c["target"]:
        args += ["--target_grid"]
    if c["std"]:
        args += ["--standard_dimension"]
    if c["outfmt"]:
        args += ["--format", FMT[c["outfmt"]]]
    if c["defl"] is not None:
        args += ["--deflation", str(c["defl"]), "--shuffle", "1"]
    return args, data, tiles, dt, (wt, area)


def expect(c, f, v, m, wt):
    """exact result (unpacked), covered mask, tolerance; arrays over the whole target"""
    s, d = c["src"], c["dst"]
    WX, WY = freg.lon_overlap(d["lons"], s["lons"]), freg.lat_overlap(d["lats"], s["lats"])
    asrc, adst = freg.cell_area(s["lons"], s["lats"]), freg.cell_area(d["lons"], d["lats"])
    W = np.einsum("jb,ia->jiba", WY, WX)
    mn = np.minimum(asrc[None, None], adst[:, :, None, None])
    sliver = bool(((W > 0) & (W < 2e-6 * mn)).any())
    W = np.where(W < 1e-6 * mn, 0, W)
    x = v.astype(float)
    if f["pack"]:
        x = x * (f["pack"][0] or 1.0) + f["pack"][1]
    x = np.where(m, 0.0, x)
    ok = (~m).astype(float)
    sm = bool(f["method"] and "sum" in f["method"])
    wt, area = wt
    w = W / asrc if sm else (W * wt if c["weight"] else W)
    r = 1.0
    if f["meas"] and not sm:
        r = area / (asrc * freg.R2)
        if c["area_t"]:
            r = (r[c["l"][0] - 1:c["l"][1]] if c["l"] else r).reshape((-1,) + (1,) * (v.ndim - 3) + r.shape[-2:])
    num = np.einsum("jiba,...ba->...ji", w, x * r)
    den = np.einsum("jiba,...ba->...ji", w, ok * r)
    cov = np.einsum("jiba,...ba->...ji", (W > 0).astype(float), ok) > 0
    if sm:
        e = num
    else:
        e = np.where(den > 0, num / np.where(den > 0, den, 1), 0.0)
        if c["target"]:
            e = e * np.einsum("jiba,...ba->...ji", W, np.ones(asrc.shape) * r) / adst
    scale = max(1.0, np.abs(x).max()) * (max(1.0, (w.sum((2, 3))).max()) if sm else 1.0)
    near0 = (den < 1e-7 * adst) & cov & np.bool_(not sm)        # only (nearly) weightless sources: 0/0
    mix = ((W > 0).sum((2, 3)) > 1).any()
    return e, cov, scale * (1e-4 if sliver else 1e-9), near0, mix


def check_field(c, f, got, e, cov, tol, near0, name):
    t = f["dtype"]
    g = got.astype(float)
    if f["miss"]:
        gm = got == np.array(MISS[t], NP[t])
        if (gm != ~cov)[~near0].any():
            k = tuple(np.argwhere((gm != ~cov) & ~near0)[0])
            raise Violation("%s%s is %s but %s by valid source cells" % (name, list(k), got[k], "covered" if cov[k] else "not covered"))
    elif t in ("double", "float"):
        if (np.abs(g[~cov]) < 1e19).any():
            raise Violation("%s: cell outside the source has an ordinary value" % name)
    q = 1.0
    if f["pack"]:
        q = f["pack"][0] or 1.0
        g = g * q + f["pack"][1]
    at = np.full(e.shape, tol)
    if t == "float":
        at = at + 2e-7 * np.maximum(np.abs(e), 1e-30) + tol
    elif t in ("int", "short"):
        at = at + 0.5 * q * (1 + 1e-6)
        lim = 2147483647 if t == "int" else 32767
        off = f["pack"][1] if f["pack"] else 0.0
        near0 = near0 | (np.abs((e - off) / q) > lim - 1)      # does not fit the type
    bad = (~(np.abs(g - e) <= at)) & cov & ~near0
    if bad.any():
        k = tuple(np.argwhere(bad)[0])
        raise Violation("%s%s = %r, should be %r (%s)" % (name, list(map(int, k)), float(g[k]), float(e[k]), t))


def check_axis(v, want, name, tol=1e-9):
    want = np.asarray(want, float)
    if v.data.shape != want.shape or not np.allclose(v.data.astype(float), want, rtol=1e-6 if v.data.dtype == np.float32 else 1e-12, atol=1e-4 if v.data.dtype == np.float32 else tol):
        raise Violation("axis %s is %s, should be %s" % (name, v.data, want))


def run(c, ctx):
    live = fixup(c)
    args, data, tiles, dt, wt = setup(c, ctx)
    ctx.label("src%d" % len(tiles), "dst%d" % len(dt), "size" if c["dst"]["size"] else "mosaic", "w:%s" % c["weight"], "target" if c["target"] else "exch")
    ctx.ok("fregrid", *args)
    verify(c, ctx, live, data, dt, wt, ctx.dir)


def verify(c, ctx, live, data, dt, wt, odir):
    d = c["dst"]
    isint = c["xtype"] == "int"
    std = c["std"]
    kk = slice(c["k"][0] - 1, c["k"][1]) if c["k"] else slice(None)
    ll = slice(c["l"][0] - 1, c["l"][1]) if c["l"] else slice(None)
    used = "".join(f["dims"] for f in live)
    mixed = False
    ex = {}
    for f in live:
        v, m = data[f["name"]]
        for a, sl in (("z", kk), ("t", ll)):
            if a in f["dims"]:
                ix = [slice(None)] * v.ndim
                ix[f["dims"].index(a)] = sl
                v, m = v[tuple(ix)], m[tuple(ix)]
        ex[f["name"]] = expect(c, f, v, m, wt)
        mixed |= bool(ex[f["name"]][4]) and f["shape"] != "const"
    for n, (j0, j1, i0, i1) in enumerate(dt):
        p = os.path.join(odir, "out.nc" if len(dt) == 1 else "out.tile%d.nc" % (n + 1))
        if not os.path.exists(p):
            raise Violation("no output file %s" % os.path.basename(p))
        o = ncio.read(p)
        want = c["outfmt"] or c["infmt"]
        if o.format != want:
            raise Violation("output format %s, should be %s" % (o.format, want))
        xn, yn = ("lon", "lat") if (isint or std) else c["xname"]
        lons, lats = np.array(d["lons"][i0:i1 + 1]), np.array(d["lats"][j0:j1 + 1])
        for nm, cor in ((xn, lons), (yn, lats)):
            if nm not in o.vars:
                raise Violation("no axis %s in the output" % nm)
            check_axis(o.vars[nm], 0.5 * (cor[1:] + cor[:-1]), nm)
            b = o.vars[nm].attrs.get("bounds", o.vars[nm].attrs.get("edges"))
            if b is None or b not in o.vars:
                raise Violation("axis %s has no bounds (%r)" % (nm, b))
            check_axis(o.vars[b], cor if o.vars[b].data.ndim == 1 else np.stack([cor[:-1], cor[1:]], 1), b)
        nt = c["nt"]
        if "t" in used:
            ref = ncio.DS()
            freg.axis(ref, "t", c)
            check_axis(o.vars["time"], ref.vars["time"].data[ll], "time")
            if c["tbnd"]:
                check_axis(o.vars["time_bnds"], ref.vars["time_bnds"].data[ll], "time_bnds")
        if "z" in used:
            ref = ncio.DS()
            freg.axis(ref, "z", c)
            check_axis(o.vars["level"], ref.vars["level"].data[kk], "level")
            if c["zedge"]:
                e = ref.vars["level_edges"].data
                check_axis(o.vars["level_edges"], e[c["k"][0] - 1:c["k"][1] + 1] if c["k"] else e, "level_edges")
        for f in c["fields"]:
            if f not in live:
                if f["name"] in o.vars:
                    raise Violation("%s has interp_method %s but is in the output" % (f["name"], f["im"]))
                continue
            if f["name"] not in o.vars:
                raise Violation("no %s in the output" % f["name"])
            g = o.vars[f["name"]]
            if g.dtype != f["dtype"]:
                raise Violation("%s is %s, was %s" % (f["name"], g.dtype, f["dtype"]))
            e, cov, tol, near0, _ = ex[f["name"]]
            e, cov, near0 = e[..., j0:j1, i0:i1], cov[..., j0:j1, i0:i1], near0[..., j0:j1, i0:i1]
            if g.data.shape != e.shape:
                raise Violation("%s has shape %s, should be %s" % (f["name"], g.data.shape, e.shape))
            check_field(c, f, g.data, e, cov, tol, near0, f["name"])
            for a, v in (("long_name", f["name"]), ("units", "K"), ("interp_method", "conserve_order1")):
                if g.attrs.get(a) != v:
                    raise Violation("%s:%s = %r, should be %r" % (f["name"], a, g.attrs.get(a), v))
        if c["extra"]:
            check_axis(o.vars["avgdt"], (np.arange(c["nt"]) * 1.5 + 1)[ll], "avgdt")
        if o.attrs.get("title") != "source":
            raise Violation("global attribute lost")
    ctx.nontrivial(mixed)
