"""iceberg_comb.sh: all bergs of all files, once, or nothing at all."""
import hashlib, os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation, B
from vlib import ncio, ice

ID = "C08"
QUICK, THOROUGH = 1000, 12000
RULE = ("Icebergs restart sets (files with 0..12 bergs) are combined, complete or with one generated defect (missing, foreign or extra "
        "file, inconsistent NumFilesInSet, existing output, one input); non-trivial = bergs in at least 2 files, or a defect.")
ASSUMPTIONS = ["NCO (ncrcat, ncatted) and ncdump are trusted"]
SITS = ["ok"] * 5 + ["exists", "missing", "foreign", "version", "noversion", "inconsistent", "toofew", "toomany", "one", "junk", "check"]


@st.composite
def cases(draw):
    c = ice.draw_ice(draw)
    c["sit"] = draw(st.sampled_from(SITS))
    c["which"] = draw(st.integers(0, 100))
    c["v"] = draw(st.booleans())
    return c


def strategy(tier):
    return cases()


def snap(d):
    return {f: hashlib.sha1(open(os.path.join(d, f), "rb").read()).hexdigest() for f in sorted(os.listdir(d))}


def run(c, ctx):
    files = ice.build(c)
    n = len(files)
    sit, w = c["sit"], c["which"] % n
    if sit == "inconsistent":
        files[w].attrs["NumFilesInSet"] = np.int32(n + 1)
    if sit == "toofew":
        for f in files:
            f.attrs["NumFilesInSet"] = np.int32(n + 1 + c["which"] % 3)
    if sit == "toomany":
        for f in files:
            f.attrs["NumFilesInSet"] = np.int32(n - 1)
    if sit == "version":
        files[w].attrs["file_format_major_version"] = np.int32(0)
        files[w].attrs["file_format_minor_version"] = np.int32(0)
    if sit == "noversion":
        del files[w].attrs["file_format_major_version"]
    if sit == "foreign":
        del files[w].attrs["NumFilesInSet"]
    names = []
    for i, f in enumerate(files):
        names.append("icebergs.res.nc.%04d" % i)
        f.write(ctx.path(names[-1]), c["fmt"])
    if sit == "missing":
        os.unlink(ctx.path(names[w]))
    if sit == "junk":
        open(ctx.path(names[w]), "w").write("junk " * 100)
    args = list(names)
    if sit == "one":
        args = args[:1]
    if sit == "exists":
        open(ctx.path("out.nc"), "w").write("precious")
    before = snap(ctx.dir)
    ctx.label("sit=" + sit)
    if sit == "check":
        for i, nm in enumerate(names):
            r = ctx.run("iceberg_comb.sh", "-c", nm, env={"PKGLIBEXECDIR": B.BIN})
            if r.rc != 0:
                raise Violation("-c: status %d for an icebergs restart: %s" % (r.rc, r.brief()))
        k = c["which"] % 4
        f = files[0]
        if k == 0:
            del f.attrs["NumFilesInSet"]
        elif k == 1:
            del f.attrs["file_format_minor_version"]
            f.attrs["file_format_major_version"] = np.int32(0)
        elif k == 2:
            del f.attrs["file_format_major_version"]
        else:
            f.attrs["file_format_major_version"] = np.int32(0)
            f.attrs["file_format_minor_version"] = np.int32(0)
        f.write(ctx.path("x.nc"), c["fmt"])
        r = ctx.run("iceberg_comb.sh", "-c", "x.nc", env={"PKGLIBEXECDIR": B.BIN})
        if r.rc != 255:
            raise Violation("-c: status %d for a file that is no icebergs restart (kind %d)" % (r.rc, k))
        os.unlink(ctx.path("x.nc"))
        if snap(ctx.dir) != before:
            raise Violation("-c changed the directory")
        ctx.nontrivial()
        return
    r = ctx.run("iceberg_comb.sh", *(["-v"] if c["v"] else []), *args, "out.nc", env={"PKGLIBEXECDIR": B.BIN})
    after = snap(ctx.dir)
    if sit != "ok":
        if r.rc == 0:
            raise Violation("%s: exit status 0: %s" % (sit, r.brief()))
        if after != before:
            raise Violation("%s: the directory was changed: %s -> %s" % (sit, sorted(before), sorted(after)))
        ctx.nontrivial()
        return
    if r.rc != 0:
        raise Violation("failed on a complete set: " + r.brief())
    for f in before:
        if after.get(f) != before[f]:
            raise Violation("input %s was changed or removed" % f)
    if set(after) - set(before) != {"out.nc"}:
        raise Violation("new files %s" % sorted(set(after) - set(before)))
    got = ncio.read(ctx.path("out.nc"))
    m = ncio.diff(ice.combined(files), got, ignore_gatts=ice.NCO, order=False)
    if m:
        raise Violation("combined file: " + m)
    if not any(c["nrec"]):
        ctx.label("no-bergs")
    ctx.nontrivial(sum(1 for x in c["nrec"] if x) >= 2)
