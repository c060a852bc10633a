"""mppncscatter: pieces are the tiles of the input; mppnccombine puts them back."""
import hashlib, os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio
from vlib.ncio import DS, DT, Var

ID = "C03"
QUICK, THOROUGH = 1300, 30000
RULE = ("A data set with dimensions that are (or are not) x/y by units, cartesian_axis or -X/-Y, static and record variables up to "
        "4-D of all six types, is scattered with a generated layout, io-layout, prefix, start and width; every piece is compared "
        "exactly with the tile cut by an independent decomposition, and the pieces are combined again; "
        "non-trivial = at least 2 pieces and a scattered variable with 2 or more dimensions.")
ASSUMPTIONS = ["variables have at most 4 dimensions, record dimension first (the tool's data model)",
               "the number of divisions does not exceed the length of a scattered dimension"]

XU = ["degrees_east", "degree_east", "degrees_E", "degree_e", "degreeE", "degreesE", "DEGREES_EAST"]
YU = ["degrees_north", "degree_north", "degrees_N", "degree_n", "degreesN", "degreeN", "Degrees_North"]
NU = ["m", "degrees", "mb", "", "degree", "none", "d", "kg/m2/s degrees_north"]


@st.composite
def cases(draw):
    c = {}
    big = draw(st.sampled_from([None] * 40 + ["pieces", "points", "vars"]))
    c["nx"] = draw(st.integers(1, 6 if big != "pieces" else 17))
    c["ny"] = draw(st.integers(1, 6 if big != "pieces" else 12))
    io = draw(st.booleans())
    c["nxio"] = draw(st.sampled_from([d for d in range(1, c["nx"] + 1) if c["nx"] % d == 0])) if io else 0
    c["nyio"] = draw(st.sampled_from([d for d in range(1, c["ny"] + 1) if c["ny"] % d == 0])) if io else 0
    dims = []
    nd = draw(st.integers(2, 5))
    for i in range(nd):
        k = draw(st.sampled_from(["x", "y", "n"])) if i > 1 else "xy"[i]
        d = {"k": k, "var": True}
        if k == "n":
            d["how"] = draw(st.sampled_from(["nounits", "units", "axisz", "novar"]))
            d["n"] = draw(st.integers(1, 4))
        else:
            d["how"] = draw(st.sampled_from(["units", "units", "axis", "unitsaxis", "list", "listnovar", "numunits"]))
            lo = c["nx"] if k == "x" else c["ny"]
            d["n"] = draw(st.integers(lo, max(lo, draw(st.sampled_from([lo + 1, 8, 13, 20] if big != "points" else [50, 120])))))
        d["u"] = draw(st.integers(0, 6))
        d["type"] = draw(st.sampled_from(["double", "float", "int"]))
        dims.append(d)
    c["dims"] = dims
    c["nrec"] = draw(st.sampled_from([None, 0, 1, 2, 4] if big != "vars" else [None, 2, 13, 40]))
    vs = []
    for i in range(draw(st.integers(1, 5 if big != "vars" else 25))):
        rec = c["nrec"] is not None and draw(st.booleans())
        k = draw(st.integers(0, 3 if rec else 4))
        dd = draw(st.permutations(range(nd)))[:k]
        vs.append(dict(rec=rec, dims=list(dd), type=draw(st.sampled_from(list(DT))), att=draw(st.integers(0, 3))))
    c["vars"] = vs
    c["coordlast"] = draw(st.booleans())
    c["prefix"] = draw(st.sampled_from([None, None, "sub", "7out"]))
    c["start"] = draw(st.sampled_from([None, None, 1, 5, 9999]))
    c["width"] = draw(st.sampled_from([None, None, 6, 2]))
    c["order"] = draw(st.booleans())
    c["V"] = draw(st.sampled_from([False, False, True]))
    c["dry"] = draw(st.sampled_from([False] * 9 + [True]))
    c["inpath"] = draw(st.booleans())
    c["fmt"] = draw(st.sampled_from(ncio.FORMATS))
    c["seed"] = draw(st.integers(0, 2 ** 31))
    return c


def strategy(tier):
    return cases()


def extent(n, nd):
    """FMS' symmetric decomposition of n points over nd divisions (lengths differ by at most one)."""
    sym = (nd % 2 == 0 and n % 2 == 0) or (nd % 2 == 1 and n % 2 == 1) or (nd % 2 == 1 and n % 2 == 0 and nd < n // 2)
    out = [None] * nd
    lo, hi, left = 0, n - 1, nd
    i, j = 0, nd - 1
    if not sym:
        for k in range(nd):
            ln = -(-(n - lo) // (nd - k))
            out[k] = (lo, lo + ln - 1)
            lo += ln
        return out
    while i < j:
        ln = -(-(hi - lo + 1) // left)
        out[i] = (lo, lo + ln - 1)
        out[j] = (hi - ln + 1, hi)
        lo, hi, left = lo + ln, hi - ln, left - 2
        i, j = i + 1, j - 1
    if i == j:
        out[i] = (lo, hi)
    return out


def build(c):
    rng = np.random.default_rng(c["seed"])
    ds = DS()
    nm = []
    kinds = {}
    coords, others = [], []
    for i, d in enumerate(c["dims"]):
        name = "%s%d" % (d["k"], i) if not d["how"].startswith("list") else "q%d" % i
        nm.append(name)
        ds.add_dim(name, d["n"])
        kinds[name] = d["k"]
        if d["how"] in ("novar", "listnovar"):
            continue
        a = {}
        h = d["how"]
        if d["k"] == "n":
            if h == "units":
                a["units"] = NU[d["u"] % len(NU)]
            elif h == "axisz":
                a["cartesian_axis"] = "Z"
                if d["u"] % 2:
                    a["units"] = NU[d["u"]]
        else:
            U = XU if d["k"] == "x" else YU
            if h in ("units", "unitsaxis"):
                a["units"] = U[d["u"]]
            if h == "axis":
                a["cartesian_axis"] = d["k"].upper() if d["u"] % 2 else d["k"]
                if d["u"] > 3:
                    a["units"] = NU[d["u"]]
            if h == "unitsaxis":
                a["cartesian_axis"] = d["k"].upper()
            if h == "numunits":
                a["units"] = np.float32(1.0)
                a["cartesian_axis"] = d["k"].upper()
        if a.get("units", "x") == "":
            del a["units"]
        a["long_name"] = "dim %d" % i
        coords.append((name, Var(d["type"], (name,), ncio.rand_data(rng, d["type"], (d["n"],)), a)))
    if c["nrec"] is not None:
        ds.add_dim("time", c["nrec"], True)
        coords.append(("time", Var("double", ("time",), np.arange(c["nrec"]) + 0.5, {"units": "days since 1900-01-01"})))
    for i, v in enumerate(c["vars"]):
        dd = (["time"] if v["rec"] else []) + [nm[k] for k in v["dims"]]
        shp = tuple(ds.dims[k] for k in dd)
        a = {}
        if v["att"] == 1:
            a["missing_value"] = np.array(-7, DT[v["type"]]) if v["type"] != "char" else "z"
        if v["att"] == 2:
            a["units"] = "degrees_north"
            a["valid_range"] = np.array([0.0, 3.5])
        others.append(("v%d" % i, Var(v["type"], dd, ncio.rand_data(rng, v["type"], shp), a)))
    for n, v in (others + coords if c["coordlast"] else coords + others):
        ds.vars[n] = v
    ds.attrs["title"] = "t %d" % c["seed"]
    ds.attrs["nums"] = np.array([1, 2, 3], "i4")
    return ds, kinds, nm


def run(c, ctx):
    ds, kinds, nm = build(c)
    if c["order"]:
        items = list(ds.dims.items())[::-1]
        ds.dims.clear()
        ds.dims.update(items)
    os.makedirs(ctx.path("data"))
    infile = "data/in.nc" if c["inpath"] else "in.nc"
    ds.write(ctx.path(infile), c["fmt"])
    h0 = hashlib.sha1(open(ctx.path(infile), "rb").read()).hexdigest()
    args = ["-x", c["nx"], "-y", c["ny"]]
    if c["nxio"]:
        args += ["-i", c["nxio"], "-j", c["nyio"]]
    if c["start"] is not None:
        args += ["-s", c["start"]]
    if c["prefix"]:
        os.makedirs(ctx.path(c["prefix"]))
        args += ["-p", c["prefix"]]
    if c["width"]:
        args += ["-w", c["width"]]
    xl = [n for n, d in zip(nm, c["dims"]) if d["how"].startswith("list") and d["k"] == "x"]
    yl = [n for n, d in zip(nm, c["dims"]) if d["how"].startswith("list") and d["k"] == "y"]
    if xl:
        args += ["-X", ",".join(xl)]
    if yl:
        args += ["-Y", ",".join(yl)]
    if c["V"]:
        args += ["-V"]
    if c["dry"]:
        args += ["-n"]
    r = ctx.ok("mppncscatter", *args, infile)
    if hashlib.sha1(open(ctx.path(infile), "rb").read()).hexdigest() != h0:
        raise Violation("the input file was changed")
    px, py = (c["nxio"], c["nyio"]) if c["nxio"] else (c["nx"], c["ny"])
    od = c["prefix"] or "."
    names = ["in.nc.%0*d" % (c["width"] or 4, i + (c["start"] or 0)) for i in range(px * py)]
    have = sorted(f for f in os.listdir(ctx.path(od)) if f.startswith("in.nc."))
    if c["dry"]:
        ctx.label("dry-run")
        if have:
            raise Violation("a dry run created %s" % have)
        return
    if have != sorted(names):
        raise Violation("output files %s, expected %s" % (have, names))
    for i in range(px * py):
        exp = DS()
        exp.attrs.update(ds.attrs)
        exp.attrs["NumFilesInSet"] = np.int32(px * py)
        rg = {}
        for d, n in ds.dims.items():
            k = kinds.get(d)
            if k in ("x", "y"):
                nd, io, w = (c["nx"], px, i % px) if k == "x" else (c["ny"], py, i // px)
                e = extent(n, nd)
                step = nd // io
                rg[d] = (e[w * step][0], e[w * step + step - 1][1])
                exp.add_dim(d, rg[d][1] - rg[d][0] + 1)
            else:
                exp.add_dim(d, n, d in ds.unlim)
        for n, v in ds.vars.items():
            sl = tuple(slice(rg[d][0], rg[d][1] + 1) if d in rg else slice(None) for d in v.dims)
            a = dict(v.attrs)
            if n in rg:
                a["domain_decomposition"] = np.array([1, ds.dims[n], rg[n][0] + 1, rg[n][1] + 1], "i4")
            exp.vars[n] = Var(v.dtype, v.dims, v.data[sl] if v.dims else v.data, a)
        got = ncio.read(ctx.path(od, names[i]))
        m = ncio.diff(exp, got)
        if m:
            raise Violation("piece %d is not its tile of the input: %s" % (i, m))
        want = {"NETCDF3_64BIT_DATA": "NETCDF3_CLASSIC"}.get(c["fmt"], c["fmt"])
        if got.format != want and c["fmt"] != "NETCDF3_64BIT_DATA":
            raise Violation("piece format %s, expected %s" % (got.format, want))
    scat = [d for d in kinds if kinds[d] in ("x", "y")]
    # a dimension without a variable carries no decomposition, so it cannot be put back
    # (and pieces do not cover a variable that has the same axis twice)
    twice = any([kinds[nm[k]] for k in v["dims"]].count(a) > 1 for v in c["vars"] for a in "xy")
    if not twice and not any(d["how"] == "listnovar" for d in c["dims"]):
        tail = [os.path.join(od, n) for n in names]
        ctx.ok("mppnccombine", "back.nc", *tail, env={"MALLOC_PERTURB_": "0"})
        m = ncio.diff(ds, ncio.read(ctx.path("back.nc")))
        if m:
            raise Violation("scatter then combine does not give the input back: " + m)
        ctx.label("round-trip")
    ctx.label("pieces=%s" % ("1" if px * py == 1 else "2-6" if px * py < 7 else "7+"), "fmt=" + c["fmt"])
    if c["nxio"]:
        ctx.label("io-layout")
    for v in c["vars"]:
        ctx.label("%dD%s" % (len(v["dims"]) + v["rec"], "rec" if v["rec"] else "static"))
    ctx.nontrivial(px * py > 1 and any(len(v["dims"]) >= 2 and any(kinds[nm[k]] in "xy" for k in v["dims"]) for v in c["vars"]))
