"""mppnccombine: the combined file is the global data set the pieces came from."""
import os
import netCDF4
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio
from vlib.decomp import draw_dataset, build_pieces, build_expected

ID = "C01"
QUICK, THOROUGH = 2000, 60000
RULE = ("A global data set (1-4-D static and record variables of all six classic types, scalar and non-decomposed variables, "
        "attributes) is generated, cut by an arbitrary 1-D/2-D partition into per-process files, and combined with generated options; "
        "non-trivial = at least 2 pieces and a decomposed variable with at least 2 dimensions.")
ASSUMPTIONS = ["netCDF C library and netCDF4-python are trusted to store and return values",
               "decomposed variables have at most 4 dimensions, record dimension first (the tool's stated data model)",
               "-a appends files of the same set to an output of the other files of the set, with the same number of records"]


@st.composite
def cases(draw):
    c = draw_dataset(draw)
    c["fmt"] = draw(st.sampled_from(ncio.FORMATS))
    o = {}
    o["k"] = draw(st.sampled_from([None, None, 0, 1, 2, 3, 5, 100, 1000]))
    if (c["nrec"] or 0) > 100:
        o["k"] = draw(st.sampled_from([0, 0, None, 50, 1000]))
    o["outfmt"] = draw(st.sampled_from([None, None, "-64", "-n4", "-n4"]))
    o["d"] = draw(st.sampled_from([None, 0, 1, 5])) if o["outfmt"] == "-n4" else None
    o["s"] = draw(st.booleans()) if o["outfmt"] == "-n4" else False
    o["m"] = draw(st.booleans())
    o["v"] = draw(st.sampled_from([None, None, "-v", "-M"]))
    o["h"] = draw(st.sampled_from([None, None, 0, 64, 100000]))
    o["mode"] = draw(st.sampled_from(["auto", "auto", "range", "list", "list"]))
    o["start"] = draw(st.sampled_from([0, 0, 1, 7, 9998])) if o["mode"] != "list" else 0
    o["width"] = draw(st.sampled_from([4, 4, 6]))
    o["gap"] = draw(st.booleans()) if o["mode"] == "range" else False
    o["out0000"] = draw(st.booleans()) and draw(st.booleans())
    c["nonum"] = o["mode"] == "list" and draw(st.sampled_from([False, False, False, True]))
    # (a number missing before the first file of a -e range stops a set of more than one record: known finding)
    o["lead"] = draw(st.integers(0, 3)) if o["mode"] == "range" and c["nrec"] in (None, 0, 1) and not o["gap"] else 0
    o["perm"] = draw(st.integers(0, 10 ** 6)) if o["mode"] == "list" else 0
    c["opt"] = o
    return c


def strategy(tier):
    return cases()


def args_of(c, ctx, pieces, base="out.nc"):
    """Write the piece files; return the argument list for the combine."""
    o = c["opt"]
    args = []
    if o["k"] is not None:
        args += ["-k", o["k"]]
    if o["outfmt"]:
        args += [o["outfmt"]]
    if o["d"] is not None:
        args += ["-d", o["d"]]
    if o["s"]:
        args += ["-s"]
    if o["m"]:
        args += ["-m"]
    if o["v"]:
        args += [o["v"]]
    if o["h"] is not None:
        args += ["-h", o["h"]]
    names = []
    if o["mode"] == "list":
        names = ["piece_%c.nc" % (97 + i % 26) + str(i) for i in range(len(pieces))]
        perm = np.random.default_rng(o["perm"]).permutation(len(pieces))
        tail = [names[i] for i in perm]
        first = int(perm[0])
    else:
        num = o["start"]
        for i in range(len(pieces)):
            names.append("%s.%0*d" % (base, o["width"], num))
            last = num
            num += 1
            if o["gap"] and i % 2 == 0 and i + 1 < len(pieces):
                num += 1
        if o["start"] - o["lead"] > 0 or o["lead"]:
            args += ["-n", max(0, o["start"] - o["lead"])]
        if o["mode"] == "range":
            args += ["-e", last]
        tail = []
        first = 0
    for nme, p in zip(names, pieces):
        p.write(ctx.path(nme), c["fmt"])
    # a trailing ".0000" is stripped from the output name
    out = base + ".0000" if (o["out0000"] and o["mode"] == "list") else base
    return args, out, tail, names, first


def expected_format(c):
    o, f = c["opt"]["outfmt"], c["fmt"]
    if o == "-64":
        return "NETCDF3_64BIT_OFFSET"
    if o == "-n4":
        return "NETCDF4_CLASSIC"
    return "NETCDF3_64BIT_OFFSET" if f in ("NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET") else f


def run(c, ctx):
    ctx.perturb = c["seed"] % 8 == 0    # (the tool allocates 20 MB per file)
    pieces = build_pieces(c)
    o = c["opt"]
    args, out, tail, names, first = args_of(c, ctx, pieces)
    if o["gap"]:
        args = ["-f"] + args
    exp = build_expected(c, missing=o["m"], outname="out.nc", pieces=pieces)
    if len(tail) >= 2 and c["seed"] % 3 == 0:
        # the set combined in two steps: the rest is appended to the output of the first files
        k = 1 + c["seed"] // 3 % (len(tail) - 1)
        r = ctx.run("mppnccombine", *args, out, *tail[:k])
        if r.rc != 0:
            raise Violation("combine failed on the first files of a set: " + r.brief())
        args, tail = ["-a"] + args, tail[k:]
        ctx.label("append")
    r = ctx.run("mppnccombine", *args, out, *tail)
    gaps = o["gap"] and len(pieces) > 1
    if not gaps and r.rc != 0:
        raise Violation("combine failed on a complete set: " + r.brief())
    if gaps and r.rc not in (0, 1):
        raise Violation("combine crashed: " + r.brief())
    if not os.path.exists(ctx.path("out.nc")):
        raise Violation("no output file: " + r.brief())
    got = ncio.read(ctx.path("out.nc"))
    m = ncio.diff(exp, got)
    if m:
        raise Violation("combined file differs from the global data set: %s (%s)" % (m, r.brief()))
    if got.format != expected_format(c):
        raise Violation("output format %s, expected %s" % (got.format, expected_format(c)))
    if o["outfmt"] == "-n4":
        with netCDF4.Dataset(ctx.path("out.nc")) as d:
            for n, v in d.variables.items():
                f = v.filters()
                if v.ndim and ((f["complevel"] if f["zlib"] else 0) != (o["d"] or 0) or f["shuffle"] != bool(o["d"] and o["s"])):
                    raise Violation("%s: deflation %s and shuffle %s of the output, asked were %s and %s" % (n, f["complevel"], f["shuffle"], o["d"], o["s"]))
    for n, p in zip(names, pieces):
        if not os.path.exists(ctx.path(n)):
            raise Violation("input file %s disappeared" % n)
    ctx.label("pieces=%s" % ("1" if len(pieces) == 1 else "2-4" if len(pieces) < 5 else "5+"), "fmt=" + c["fmt"], "mode=" + o["mode"],
              "records=%s" % ("none" if c["nrec"] is None else "1" if c["nrec"] == 1 else "many"))
    if c["drop"]:
        ctx.label("uncovered")
    if o["k"] not in (None, 1):
        ctx.label("blocking")
    if o["m"]:
        ctx.label("-m")
    dec = [v for v in c["vars"] if len(v["dims"]) >= 2 and any(d in ("x", "y", "xq", "yq") for d in v["dims"])]
    ctx.nontrivial(len(pieces) >= 2 and bool(dec))
