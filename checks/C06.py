"""scatter-ncc: every point goes to the file of its io domain; combine-ncc gives the file back."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio, ncc
from vlib.ncio import DS, Var, DT

ID = "C06"
QUICK, THOROUGH = 1600, 40000
RULE = ("A compressed restart file (unsorted, negative indices, levels, records) is scattered on a generated io layout; every "
        "output is compared exactly with the points of its domain in index order, and the set is combined again; "
        "non-trivial = at least 2 output files and 2 valid points.")
ASSUMPTIONS = ["the compressed dimension is the last one of a variable; other dimensions are the record dimension and zfull "
               "(the tool's data model)", "values are finite (the tool converts through double)"]


@st.composite
def cases(draw):
    return ncc.draw_set(draw, "scatter")


def strategy(tier):
    return cases()


def run(c, ctx):
    (ds,), idx, size = ncc.build(c)
    ds.write(ctx.path("in.nc"), c["fmt"])
    a = ["-D", c["v"]] if c["v"] else []
    ctx.ok("scatter-ncc", *a, "-i", c["pi"], "-j", c["pj"], "in.nc")
    nl, na = c["nlon"] // c["pi"], c["nlat"] // c["pj"]
    n = c["pi"] * c["pj"]
    names = ["in.nc.%04d" % i for i in range(n)]
    have = sorted(f for f in os.listdir(ctx.dir) if f.startswith("in.nc."))
    if have != names:
        raise Violation("output files %s, expected %s" % (have, names))
    for i in range(n):
        exp = DS()
        exp.attrs.update(ds.attrs)
        order = {}
        for d, ln in ds.dims.items():
            if d in idx:
                ix = idx[d][0]
                ij = ix % (c["nlon"] * c["nlat"])
                w = (ij // c["nlon"]) // na * c["pi"] + (ij % c["nlon"]) // nl
                o = np.argsort(ix, kind="stable")
                o = o[(ix[o] >= 0) & (w[o] == i)]
                order[d] = o
                exp.add_dim(d, max(1, len(o)))
            else:
                exp.add_dim(d, ln, d in ds.unlim)
        for nm, v in ds.vars.items():
            cd = [d for d in v.dims if d in idx]
            data = v.data
            if cd:
                o = order[cd[0]]
                if len(o):
                    data = np.take(data, o, axis=v.dims.index(cd[0]))
                else:
                    data = np.full([exp.dims[d] for d in v.dims], v.attrs.get("_FillValue", ncc.FILL[v.dtype]), DT[v.dtype])
            exp.vars[nm] = Var(v.dtype, v.dims, data, v.attrs)
        got = ncio.read(ctx.path(names[i]))
        m = ncio.diff(exp, got)
        if m:
            raise Violation("file %d: %s" % (i, m))
        if got.format != c["fmt"]:
            raise Violation("format %s, expected %s" % (got.format, c["fmt"]))
    npts = max(int((l[0] >= 0).sum()) for l in idx.values())
    ctx.ok("combine-ncc", *names, "back.nc")
    m = ncio.diff(ncc.combined([ds], idx), ncio.read(ctx.path("back.nc")))
    if m:
        raise Violation("scatter then combine does not give the file back: " + m)
    ctx.label("files=%d" % n, "fmt=" + c["fmt"], "rec=%s" % c["nrec"])
    ctx.nontrivial(n >= 2 and npts >= 2)
