"""combine-ncc: the combined compressed file holds every valid point once, in index order."""
import os
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio, ncc

ID = "C04"
QUICK, THOROUGH = 2000, 40000
RULE = ("Compressed-by-gathering sets (1-5 files, up to two compressed dimensions, unsorted and negative indices, empty domains, "
        "compressed dimension in any position, records) are combined and compared exactly with the sorted concatenation; "
        "non-trivial = at least 2 files with at least one valid point in two of them.")
ASSUMPTIONS = ["index values are unique over the set", "values are finite (the tool converts through double)"]


@st.composite
def cases(draw):
    return ncc.draw_set(draw, "combine")


def strategy(tier):
    return cases()


def run(c, ctx):
    files, idx, size = ncc.build(c)
    names = []
    for i, f in enumerate(files):
        names.append("in.%d.nc" % i)
        f.write(ctx.path(names[-1]), c["fmt"])
    a = ["-v"] * c["v"] if c["v"] else []
    ctx.ok("combine-ncc", *a, *names, "out.nc")
    got = ncio.read(ctx.path("out.nc"))
    m = ncio.diff(ncc.combined(files, idx), got)
    if m:
        raise Violation("combined file differs: " + m)
    if got.format != c["fmt"]:
        raise Violation("format %s, expected %s" % (got.format, c["fmt"]))
    ctx.label("files=%d" % len(files), "fmt=" + c["fmt"])
    valid = [sum(int((ix >= 0).any()) for ix in l) for l in idx.values()]
    if not any(valid):
        ctx.label("no-points")
    if any((ix < 0).any() for l in idx.values() for ix in l):
        ctx.label("negatives")
    ctx.nontrivial(max(valid) >= 2)
