"""split_ncvars.pl: one file for each variable, with everything the variable needs and nothing else."""
import copy
import hashlib
import os
import stat
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation, B
from vlib import ncio
from vlib.ncio import DS

ID = "C32"
QUICK, THOROUGH = 450, 9000
QUICK_S = 200
RULE = ("Generated history files (1-3 in a row, 1-3 records each, all formats, confusable variable names, bounds, edges, auxiliary coordinates, time averages, cell measures, "
        "degenerate axes, tiles) are split by variable, by list, static, in CMIP or pressure mode or into one file; every output file is compared variable by variable and "
        "attribute by attribute with the concatenated inputs; some runs get a concatenator that fails; non-trivial = at least two fields and two records.")
ASSUMPTIONS = ["the input files hold the same variables and are given in chronological order, as the help asks",
               "vertical dimensions that --cmip renames are in classic files: ncrename with the installed netCDF-4 library loses the values of a renamed coordinate"]
NAMES = ["temp", "air_temp", "temp2", "u", "ucomp", "t_ref", "precip", "q", "emp", "ps_mean"]
NP = {"float": np.float32, "double": np.float64, "int": np.int32, "short": np.int16}


@st.composite
def cases(draw):
    b = st.booleans()
    c = {"fmt": draw(st.sampled_from(["NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF4_CLASSIC", "NETCDF4"])),
         "recs": draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)), "n": [draw(st.integers(1, 3)) for _ in range(3)],
         "tile": draw(st.sampled_from(["", "", "", ".tile2"])), "zname": draw(st.sampled_from(["pfull", "pfull", "pres", "plev19", "levhalf"])),
         "cart": draw(st.sampled_from(["cartesian_axis", "cartesian_axis", "axis"])), "hname": draw(st.sampled_from([["lon", "lat"], ["grid_xt", "grid_yt"], ["longitude", "latitude"]])),
         "hb": draw(b), "zunits": draw(st.sampled_from(["hPa", "none", "level"])), "ze": draw(st.sampled_from([None, "edges", "bounds"])), "tb": draw(st.sampled_from([None, "bounds", "bounds", "climatology"])),
         "cal": draw(st.sampled_from([None, ["calendar", "NOLEAP"], ["calendar", "noleap"], ["calendar_type", "NOLEAP"], ["calendar_type", "THIRTY_DAY_MONTHS"], ["both", "JULIAN"]])),
         "geo": draw(st.sampled_from([False, False, True])), "area": draw(b), "fname": draw(b), "first": draw(b), "seed": draw(st.integers(0, 10 ** 6))}
    c["fields"] = []
    for nm in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True)):
        d = draw(st.sampled_from(["tzyx", "tzyx", "tyx", "tyx", "tsyx", "t", "yx", "zyx", "tz", "x"]))
        c["fields"].append({"name": nm, "dims": d, "dtype": draw(st.sampled_from(["float", "float", "double", "int", "short"])),
                            "tavg": draw(b), "meas": draw(st.sampled_from([None, None, "area: area_t", "area: area_t volume: vol_t"])),
                            "coords": draw(st.sampled_from([None, None, None, "geo2", "height2m", "height10m nothere", "height10m nothere" if "z" in d else "p500"])) if d != "t" else None, "std": draw(b), "fill": draw(b)})
    c["ps"] = draw(b)
    c["ft"] = draw(st.sampled_from([False, False, True]))
    c["mode"] = draw(st.sampled_from(["all", "all", "all", "list", "list", "static", "one"]))
    c["cmip"] = draw(st.sampled_from(["", "", "", "-c", "-a"]))
    c["p"] = draw(st.sampled_from([False, False, True]))
    c["log"] = draw(b)
    c["pick"] = [draw(b) for _ in range(4)]
    c["ghost"] = draw(st.sampled_from([None, None, "tem", "nosuch"]))
    c["dirs"] = draw(st.sampled_from(["", "", "o", "i", "oi", "deep"]))
    c["runs"] = draw(st.sampled_from([1, 1, 2]))
    c["fail"] = draw(st.sampled_from([False] * 5 + [True]))
    return c


def strategy(tier):
    return cases()


def make(c):
    """-> one data set per input file, and the names of the fields"""
    rng = np.random.default_rng(c["seed"])
    nz, ny, nx = c["n"]
    X, Y = c["hname"]
    Z = c["zname"]
    dims = {"t": "time", "z": Z, "y": Y, "x": X, "s": "scalar_axis"}
    size = {"z": nz, "y": ny, "x": nx, "s": 1}
    ds = DS()
    stat = {}
    used = set("".join(f["dims"] for f in c["fields"])) | set("tyx")
    if c["p"]:
        used.add("z")
    nb = ("hb" in c and c["hb"]) or c["tb"] or c["ze"] == "bounds"
    for d in "zyxs":
        if d in used:
            ds.add_dim(dims[d], size[d])
    if c["ze"] == "edges" and "z" in used:
        ds.add_dim("zedge", nz + 1)
    if nb:
        ds.add_dim("nv", 2)
    r = lambda *s: rng.uniform(-100, 100, s)

    def axis(name, n, cart, **at):
        at[c["cart"]] = cart
        ds.add(name, "double", (name,), np.arange(n) * 1.5 + 1, long_name=name, **at)
    axis(X, nx, "X", units="degrees_E", **({"bounds": X + "_bnds"} if c["hb"] else {}))
    axis(Y, ny, "Y", units="degrees_N", **({"bounds": Y + "_bnds"} if c["hb"] else {}))
    if c["hb"]:
        ds.add(X + "_bnds", "double", (X, "nv"), r(nx, 2), long_name="x bounds")
        ds.add(Y + "_bnds", "double", (Y, "nv"), r(ny, 2), long_name="y bounds")
    if "z" in used:
        at = {}
        if c["ze"] == "edges":
            at["edges"] = "zedge"
            ds.add("zedge", "double", ("zedge",), np.arange(nz + 1) * 1.5 + 0.25, long_name="edges", units="hPa", **{c["cart"]: "Z"})
        elif c["ze"]:
            at["bounds"] = "z_bnds"
            ds.add("z_bnds", "double", (Z, "nv"), r(nz, 2), long_name="z bounds")
        if c.get("ft"):
            A, Bn = ("ap_half", "b_half") if Z == "levhalf" else ("ap", "b")
            ds.add(A, "double", (Z,), r(nz), long_name="ap", units="Pa")
            ds.add(Bn, "double", (Z,), r(nz), long_name="b")
            at["formula_terms"] = "ap: %s b: %s ps: ps" % (A, Bn)
        axis(Z, nz, "Z", units=c["zunits"], **at)
    if "s" in used:
        ds.add("scalar_axis", "double", ("scalar_axis",), [0.0], long_name="none", **{c["cart"]: "N"})
    names = [f["name"] for f in c["fields"]]
    if c["geo"]:
        ds.add("geolon", "float", (Y, X), r(ny, nx).astype("f4"), long_name="lon")
        ds.add("geolat", "float", (Y, X), r(ny, nx).astype("f4"), long_name="lat")
    co = " ".join(f["coords"] or "" for f in c["fields"])
    if "geo2" in co:
        ds.add("xc", "double", (Y, X), r(ny, nx), long_name="x", **({"bounds": "xc_bnds"} if c["hb"] else {}))
        ds.add("yc", "double", (Y, X), r(ny, nx), long_name="y")
        if c["hb"]:
            ds.add("xc_bnds", "double", (Y, X, "nv"), r(ny, nx, 2))
    for h in ("height2m", "height10m"):
        if h in co:
            ds.add(h, "double", (), np.array(2.5), units="m", axis="Z")
    if "p500" in co:
        ds.add("p500", "double", (), np.array(50000.0), units="Pa", axis="Z")
    if c["area"] and any(f["meas"] for f in c["fields"]):
        ds.add("area_t", "float", (Y, X), r(ny, nx).astype("f4"), long_name="area")
    if c["p"]:
        ds.add("pk", "float", (Z,), r(nz).astype("f4"), long_name="pk", units="Pa")
        ds.add("bk", "float", (Z,), r(nz).astype("f4"), long_name="bk")
    out = []
    t0 = 0
    for k, nt in enumerate(c["recs"]):
        d = copy.deepcopy(ds)
        d.add_dim("time", nt, True)
        at = {"units": "days since 2000-01-01", "long_name": "time", c["cart"]: "T"}
        if c["cal"]:
            if c["cal"][0] != "both":
                at[c["cal"][0]] = c["cal"][1]
            else:
                at["calendar"] = at["calendar_type"] = c["cal"][1]
        if c["tb"]:
            at[c["tb"]] = "time_bnds"
        v = []
        v.append(("time", "double", ("time",), t0 + np.arange(nt) + 0.5, at))
        if c["tb"]:
            v.append(("time_bnds", "double", ("time", "nv"), r(nt, 2), {"long_name": "time bounds"}))
        for f in c["fields"]:
            s = tuple(nt if q == "t" else size[q] for q in f["dims"])
            a = {"long_name": "the " + f["name"], "units": "K"}
            x = rng.uniform(-1000, 1000, s).astype(NP[f["dtype"]])
            if f["fill"]:
                a["missing_value"] = NP[f["dtype"]](-999)
                a["_FillValue"] = NP[f["dtype"]](-999)
                x = np.where(rng.random(s) < 0.2, NP[f["dtype"]](-999), x).astype(NP[f["dtype"]])
            if "t" not in f["dims"] and k:
                x = out[0].vars[f["name"]].data
            if f["tavg"] and "t" in f["dims"]:
                a["time_avg_info"] = "average_T1,average_T2,average_DT"
            if f["meas"]:
                a["cell_measures"] = f["meas"]
            if f["coords"]:
                a["coordinates"] = "xc yc" if f["coords"] == "geo2" else f["coords"]
            if f["std"]:
                a["standard_name"] = "std_" + f["name"]
            v.append((f["name"], f["dtype"], tuple(dims[q] for q in f["dims"]), x, a))
        if c["p"] or c["ps"]:
            v.append(("ps", "float", ("time", Y, X), r(nt, ny, nx).astype("f4"), {"long_name": "surface pressure", "units": "Pa"}))
        if any("time_avg_info" in q[4] for q in v):
            for nm in ("average_T1", "average_T2", "average_DT"):
                v.append((nm, "double", ("time",), r(nt), {"units": "days"}))
        if not c["first"]:
            v.reverse()
        for nm, ty, dm, x, a in v:
            d.add(nm, ty, dm, x, **a)
        d.attrs["title"] = "a run"
        if c["fname"]:
            d.attrs["filename"] = "hist.nc"
        out.append(d)
        t0 += nt
    return out


def has_t(v):
    return "time" in v.dims


def md5(p):
    return hashlib.md5(open(p, "rb").read()).hexdigest()


def run(c, ctx):
    c = copy.deepcopy(c)
    if c["mode"] in ("static", "one"):
        c["recs"] = c["recs"][:1]
    if c["mode"] == "one":
        c["p"] = False
    if c["cmip"] and c["zname"] in ("plev19", "levhalf") and c["fmt"].startswith("NETCDF4"):
        c["fmt"] = "NETCDF3_64BIT_OFFSET"
    if len(c["recs"]) < 2 or c["mode"] in ("static", "one"):
        c["fail"] = False
        c["runs"] = 1
    src = make(c)
    d0 = src[0]
    work, idir, odir = ctx.path("w"), ctx.path("w"), ctx.path("w")
    os.mkdir(work)
    a = []
    if "i" in c["dirs"]:
        idir = ctx.path("arch")
        os.mkdir(idir)
        a += ["-i", idir]
    if "o" in c["dirs"]:
        odir = ctx.path("out")
        a += ["-o", odir]
    elif c["dirs"] == "deep":
        odir = os.path.join(work, "x", "y")
        a += ["-o", "x/y"]
    files = ["2000%02d.hist%s.nc" % (k + 1, c["tile"]) for k in range(len(src))]
    for f, d in zip(files, src):
        d.write(os.path.join(idir, f), c["fmt"])
    src = [ncio.read(os.path.join(idir, f)) for f in files]
    d0 = src[0]
    before = {f: md5(os.path.join(idir, f)) for f in files}
    fnames = [f["name"] for f in c["fields"]]
    timed = [n for n, v in d0.vars.items() if has_t(v) and not n.startswith("average_")]
    static = [n for n, v in d0.vars.items() if not has_t(v) and len(v.dims) <= 3]
    if c["mode"] == "static":
        want = static
        a += ["-s"]
    elif c["mode"] in ("list", "one"):
        want = [n for n, q in zip(fnames, c["pick"]) if q] or fnames[:1]
        if c["mode"] == "list":          # a second file can only be appended along time
            if len(src) > 1:
                want = [n for n in want if n in timed]
        ask = list(want)
        if c["ghost"] and c["ghost"] not in d0.vars:
            ask.insert(0, c["ghost"])
        if not ask:
            ctx.nontrivial(False)
            return
        a += ["-v", ",".join(ask)]
    else:
        want = timed
    want = [n for n in want if not (c["mode"] != "static" and c["tb"] and n == "time_bnds")]
    if c["mode"] == "one":
        a += ["-f", "single.nc"]
    if c["cmip"]:
        a += [c["cmip"]]
    if c["p"]:
        a += ["-p"]
    if c["log"]:
        a += ["-l"]
    env = {"LIST_NCVARS": os.path.join(B.BIN, "list_ncvars.sh"), "PKGLIBEXECDIR": B.BIN}
    ctx.label("mode " + c["mode"], "cmip" + c["cmip"], "files%d" % len(src))
    nrec = sum(c["recs"])
    ctx.nontrivial(len(fnames) > 1 and nrec > 1 and len(want) > 0)
    if c["fail"] and want:
        # the output of the files before must survive a concatenation that fails
        ctx.label("fault")
        ctx.ok("split_ncvars.pl", *a, files[0], cwd=work, env=env)
        kept = {n: ncio.read(os.path.join(odir, n + c["tile"] + ".nc")) for n in want}
        bad = ctx.path("bad_ncrcat")
        with open(bad, "w") as f:
            f.write("#!/bin/sh\nexit 7\n")
        os.chmod(bad, 0o755)
        r = ctx.run("split_ncvars.pl", *a, files[1], cwd=work, env=dict(env, NCRCAT=bad))
        if r.rc == 0:
            raise Violation("the concatenation failed and split_ncvars.pl reports success")
        for n, k in kept.items():
            p = os.path.join(odir, n + c["tile"] + ".nc")
            if not os.path.exists(p):
                raise Violation("%s is gone after a concatenation that failed" % os.path.basename(p))
            e = ncio.diff(k, ncio.read(p))
            if e:
                raise Violation("%s changed by a concatenation that failed: %s" % (os.path.basename(p), e))
        return
    groups = [files] if c["runs"] == 1 else [files[:1], files[1:]]
    for g in groups:
        ctx.ok("split_ncvars.pl", *a, *g, cwd=work, env=env)
    for f in files:
        if md5(os.path.join(idir, f)) != before[f]:
            raise Violation("input file %s was changed" % f)
    exp = {n + c["tile"] + ".nc" for n in want} if c["mode"] != "one" else set()
    if c["mode"] == "one":
        exp = {"single.nc"}
        odir2 = work
    else:
        odir2 = odir
    got = set(os.listdir(odir2)) if os.path.isdir(odir2) else set()
    got -= set(files) if odir2 == idir else set()
    if c["log"] and (c["mode"] != "one" or odir == work):
        exp |= {"README"}
    if c["dirs"] == "deep" and odir2 == work:
        got.discard("x")
    if got != exp:
        raise Violation("%s has %s, should have %s" % (odir2, sorted(got), sorted(exp)))
    if odir2 != work:
        left = set(os.listdir(work)) - (set(files) if idir == work else set()) - ({"x"} if c["dirs"] == "deep" else set())
        if left:
            raise Violation("files left in the working directory: %s" % sorted(left))
    if c["log"]:
        with open(os.path.join(odir, "README")) as f:
            lines = f.read().splitlines()
        at = lambda n, k: str(d0.vars[n].attrs.get(k, ""))
        e = ["%20s = %s (%s)" % (n, at(n, "long_name"), at(n, "units")) for n in timed]
        if sorted(lines) != sorted(e):
            raise Violation("README says %s, should say %s" % (sorted(lines), sorted(e)))
    if c["mode"] == "one":
        g = ncio.read(os.path.join(work, "single.nc"))
        for n in want:
            if n not in g.vars:
                raise Violation("no %s in the single file" % n)
            same(n, d0.vars[n].data, d0.vars[n], g.vars[n], set())
        other = set(fnames) - set(want)
        if other & set(g.vars):
            raise Violation("%s in the single file, not asked for" % sorted(other & set(g.vars)))
        return
    for n in want:
        one(c, n, src, ncio.read(os.path.join(odir, n + c["tile"] + ".nc")), fnames)


def cat(src, n):
    if has_t(src[0].vars[n]):
        return np.concatenate([s.vars[n].data for s in src], 0)
    return src[0].vars[n].data


def same(n, data, e, g, ignore, attrs=None, dims=None):
    attrs = e.attrs if attrs is None else attrs
    dims = e.dims if dims is None else dims
    if g.dtype != e.dtype:
        raise Violation("%s is %s, was %s" % (n, g.dtype, e.dtype))
    if tuple(g.dims) != tuple(dims):
        raise Violation("%s has dimensions %s, should have %s" % (n, g.dims, dims))
    data = data.reshape(g.data.shape) if data.size == g.data.size else data
    if data.shape != g.data.shape:
        raise Violation("%s has shape %s, should have %s" % (n, g.data.shape, data.shape))
    if not ncio.bits_eq(data, g.data):
        raise Violation("%s holds %s, should hold %s" % (n, g.data.ravel()[:8], data.ravel()[:8]))
    for k in set(attrs) | set(g.attrs):
        if k in ignore:
            continue
        if k not in attrs or k not in g.attrs or not ncio.att_eq(attrs[k], g.attrs[k]):
            raise Violation("%s:%s is %r, should be %r" % (n, k, g.attrs.get(k), attrs.get(k)))


def one(c, n, src, g, fnames):
    """compare the output file of variable n"""
    d0 = src[0]
    V = d0.vars[n]
    cmip = c["cmip"] == "-c" or (c["cmip"] == "-a" and "standard_name" in V.attrs)
    need = {n} | {d for d in V.dims if d in d0.vars}
    refs = lambda v, *ks: [w for k in ks for w in str(v.attrs.get(k, "")).replace(",", " ").split() if w in d0.vars]
    for d in V.dims:
        if d != "time" and d in d0.vars:
            need |= set(refs(d0.vars[d], "bounds", "edges"))
    for w in refs(V, "coordinates"):
        need |= {w} | set(refs(d0.vars[w], "bounds"))
    need |= {w for w in ("geolon", "geolat") if w in d0.vars}
    if c["mode"] != "static":
        if not cmip:
            need |= set(refs(V, "time_avg_info"))
        need |= set(refs(d0.vars["time"], "bounds", "climatology"))
    if c["p"] and len(V.dims) >= 4 and {"pfull", "phalf"} & set(V.dims) and all(d in d0.vars for d in V.dims):
        need |= {"ps", "pk", "bk"}
    terms = [w for d in V.dims if d in d0.vars for w in str(d0.vars[d].attrs.get("formula_terms", "")).split() if not w.endswith(":")]
    need |= {w for w in terms if w in d0.vars and not has_t(d0.vars[w])}
    ren = {}
    co = refs(V, "coordinates")
    h = [w for w in co if w.startswith("height") and w[6:7].isdigit()]
    if h:
        ren[h[0]] = "height"
    if cmip:
        if "p500" in co:
            ren["p500"] = "plev"
        for d in V.dims:
            if d == "plev19":
                ren[d] = "plev"
            elif d == "levhalf":
                ren[d] = "lev"
                ren["ap_half"], ren["b_half"] = "ap", "b"
    drop = "scalar_axis"
    may = set(need)
    todo = list(need)
    while todo:
        w = todo.pop()
        v = d0.vars[w]
        for x in refs(v, "bounds", "edges", "coordinates", "climatology", "cell_measures", "formula_terms") + [d for d in v.dims if d in d0.vars]:
            if x not in may:
                may.add(x)
                todo.append(x)
    for w in need:
        if w != drop and ren.get(w, w) not in g.vars:
            raise Violation("%s.nc has no %s (has %s)" % (n, ren.get(w, w), sorted(g.vars)))
    extra = set(g.vars) - {ren.get(w, w) for w in may}
    if extra:
        raise Violation("%s.nc has %s besides" % (n, sorted(extra)))
    if drop in g.dims or drop in g.vars:
        raise Violation("%s.nc still has the degenerate axis" % n)
    if V.dims and V.dims[0] == "time" and "time" not in g.unlim:
        raise Violation("%s.nc: time is not the record dimension" % n)
    touched = set()
    if cmip:
        for d in V.dims:
            b = str(d0.vars[d].attrs.get("bounds", "")) if d in d0.vars else ""
            touched |= {d, b}
            if b in d0.vars:
                touched |= set(d0.vars[b].dims)
    dn = lambda d: ren.get(d, d)
    for w in sorted(set(d0.vars) & may):
        if dn(w) not in g.vars:
            continue
        v = d0.vars[w]
        at = dict(v.attrs)
        ign = set()
        if "scalar_axis" in V.dims:
            ign.add("cell_methods")
        if w == n:
            if h:
                at["coordinates"] = " ".join("height" if x == h[0] else x for x in co)
            if cmip and "p500" in co:
                at["coordinates"] = " ".join("plev" if x == "p500" else x for x in co)
            if cmip:
                at.pop("time_avg_info", None)
        if ren.get(w) == "lev" and "formula_terms" in at:
            at["formula_terms"] = "ap: ap b: b ps: ps"
        if cmip and w in touched:
            ca = at.pop("cartesian_axis", None)
            if ca and ca != "N":
                at["axis"] = ca
            ct = at.pop("calendar_type", None)
            if "calendar" in at or ct:
                at["calendar"] = str(at.get("calendar", ct)).lower()
            if str(at.get("units", "")).lower() == "none":
                at["units"] = "1"
            full = {"lat": "latitude", "latitude": "latitude", "lon": "longitude", "longitude": "longitude"}.get(w)
            if full:
                at.setdefault("standard_name", full)
        same("%s.nc: %s" % (n, w), cat(src, w), v, g.vars[dn(w)], ign, at, [dn(d) for d in v.dims if d != drop])
    x = [w for w in str(V.attrs.get("cell_measures", "")).split() if not w.endswith(":")]
    x += [w for w in terms if w not in d0.vars or has_t(d0.vars[w])]
    if str(g.attrs.get("external_variables", "")).split() != (x if V.dims else []):
        raise Violation("%s.nc: external_variables is %r, should be %r" % (n, g.attrs.get("external_variables"), " ".join(x)))
    if "filename" in d0.attrs and g.attrs.get("filename") != n + c["tile"] + ".nc":
        raise Violation("%s.nc: filename is %r" % (n, g.attrs.get("filename")))
    if g.attrs.get("title") != "a run":
        raise Violation("%s.nc: the title is %r" % (n, g.attrs.get("title")))
