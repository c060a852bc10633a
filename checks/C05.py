"""decompress-ncc: every point is put at its place of the grid, everything else is missing."""
import os
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio, ncc

ID = "C05"
QUICK, THOROUGH = 1800, 40000
RULE = ("Compressed-by-gathering sets (as for C04) are decompressed from the pieces and from the combined file; both outputs are "
        "compared exactly with the points scattered on the grid; non-trivial = at least 2 valid points.")
ASSUMPTIONS = ["index values are unique over the set", "values are finite (the tool converts through double)",
               "byte and short variables have a missing_value or _FillValue"]


@st.composite
def cases(draw):
    c = ncc.draw_set(draw, "decompress")
    c["m"] = draw(st.booleans())
    c["via"] = draw(st.booleans())
    return c


def strategy(tier):
    return cases()


def run(c, ctx):
    files, idx, size = ncc.build(c)
    names = []
    for i, f in enumerate(files):
        names.append("in.%d.nc" % i)
        f.write(ctx.path(names[-1]), c["fmt"])
    a = (["-v", c["v"]] if c["v"] else []) + (["-m"] if c["m"] else [])
    exp = ncc.decompressed(files, idx, size, c["m"])
    ctx.ok("decompress-ncc", *a, *names, "out.nc")
    got = ncio.read(ctx.path("out.nc"))
    m = ncio.diff(exp, got)
    if m:
        raise Violation("decompressed file differs: " + m)
    if got.format != c["fmt"]:
        raise Violation("format %s, expected %s" % (got.format, c["fmt"]))
    npts = sum(int((ix >= 0).sum()) for l in idx.values() for ix in l)
    if c["via"] and all((ix >= 0).any() for ix in [__import__("numpy").concatenate(l) for l in idx.values()]):
        ctx.ok("combine-ncc", *names, "comb.nc")
        ctx.ok("decompress-ncc", *a, "comb.nc", "out2.nc")
        m = ncio.diff(exp, ncio.read(ctx.path("out2.nc")))
        if m:
            raise Violation("decompressing the combined file gives something else: " + m)
        ctx.label("via-combine")
    ctx.label("files=%d" % len(files), "fmt=" + c["fmt"])
    if any(v["ocean"] for v in c["vars"]):
        ctx.label("ocean_fillvalue")
    ctx.nontrivial(npts >= 2)
