"""Query tools (ncexists, is-compressed, list_ncvars) answer truthfully and change nothing."""
import hashlib, os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation, B
from vlib import ncio
from vlib.ncio import DS, DT, Var

ID = "C07"
QUICK, THOROUGH = 1500, 40000
RULE = ("Files with generated dimensions, variables (rank 0-4 plus record, all types, confusable names and suffixes), attributes and "
        "optional compress attributes; every generated query (present, absent, near-miss names) is compared with the model; "
        "non-trivial = at least 3 variables and both a positive and a negative expected answer.")
ASSUMPTIONS = ["variables have at most 4 dimensions besides the record dimension"]
NAMES = ["a", "t1", "ps", "T1", "x_T1", "average_T1", "average_T2", "average_DT", "temp_DT", "q_NITEMS", "NITEMS", "_T1a", "temp", "Temp",
         "temp2", "var_t_1", "u_DTx", "uDT", "land_T2_", "zz", "b_T2", "DT", "_DT", "v_NITEMSx", "x_t1", "precip"]
ATTS = ["units", "long_name", "missing_value", "compress", "Units", "axis"]
DN = ["x", "y", "z", "w"]


@st.composite
def cases(draw):
    c = {"files": []}
    for k in range(draw(st.integers(1, 2))):
        f = {}
        nd = draw(st.integers(1, 4))
        f["dims"] = [draw(st.integers(1, 3)) for _ in range(nd)]
        f["cv"] = [draw(st.sampled_from([None, "plain", "plain", "compress"])) if draw(st.booleans()) else "plain" for _ in range(nd)]
        f["rec"] = draw(st.sampled_from([None, 0, 1, 2]))
        f["recfirst"] = draw(st.booleans())
        f["timevar"] = draw(st.booleans())
        vs = []
        for n in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=8, unique=True)):
            rec = f["rec"] is not None and draw(st.booleans())
            vs.append(dict(name=n, rec=rec, dims=draw(st.lists(st.integers(0, nd - 1), max_size=4)),
                           type=draw(st.sampled_from(list(DT))), atts=sorted(draw(st.sets(st.sampled_from(ATTS), max_size=2)))))
        f["vars"] = vs
        f["gatts"] = sorted(draw(st.sets(st.sampled_from(ATTS + ["temp", "title"]), max_size=3)))
        f["fmt"] = draw(st.sampled_from(ncio.FORMATS))
        c["files"].append(f)
    c["s"], c["t"] = draw(st.sampled_from([(True, False), (False, True), (True, True)]))
    c["ranks"] = "".join(sorted(draw(st.sets(st.sampled_from("01234"), min_size=1))))
    c["flagstyle"] = draw(st.booleans())
    c["q"] = [[draw(st.sampled_from(["v", "a", "g"])), draw(st.sampled_from(NAMES + DN + ["tem", "temp ", "time"])),
               draw(st.sampled_from(ATTS + ["title", "unit", "temp"])), draw(st.booleans())] for _ in range(3)]
    c["bad"] = draw(st.sampled_from([None, None, None, "missing", "junk"]))
    return c


def strategy(tier):
    return cases()


def build(f):
    ds = DS()
    if f["rec"] is not None and f["recfirst"]:
        ds.add_dim("time", f["rec"], True)
    for i, n in enumerate(f["dims"]):
        ds.add_dim(DN[i], n)
    if f["rec"] is not None and not f["recfirst"]:
        ds.add_dim("time", f["rec"], True)
    rng = np.random.default_rng(1)
    for i, k in enumerate(f["cv"]):
        if k:
            ds.vars[DN[i]] = Var("int", (DN[i],), np.arange(f["dims"][i]), {"compress": "y x"} if k == "compress" else {"units": "m"})
    if f["rec"] is not None and f["timevar"]:
        ds.vars["time"] = Var("double", ("time",), np.arange(f["rec"]) * 1.0, {"units": "days since 1-1-1"})
    for v in f["vars"]:
        dd = (["time"] if v["rec"] else []) + [DN[k] for k in v["dims"]]
        ds.vars[v["name"]] = Var(v["type"], dd, ncio.rand_data(rng, v["type"], tuple(ds.dims[d] for d in dd)),
                                 {a: "y x" if a != "missing_value" else np.float32(3) for a in v["atts"]})
    for a in f["gatts"]:
        ds.attrs[a] = "x" if a != "missing_value" else np.int32(4)
    return ds


def run(c, ctx):
    sets = [build(f) for f in c["files"]]
    names = []
    for i, (d, f) in enumerate(zip(sets, c["files"])):
        names.append("f%d.nc" % i)
        d.write(ctx.path(names[-1]), f["fmt"])
    h0 = {f: hashlib.sha1(open(ctx.path(f), "rb").read()).hexdigest() for f in os.listdir(ctx.dir)}
    answers = set()
    for kind, vn, an, longopt in c["q"]:
        d = sets[0]
        if kind == "g":
            exp = an in d.attrs
            a = ["--filename=f0.nc", "--global=" + an] if longopt else ["-f", "f0.nc", "-g", an]
        elif kind == "v":
            exp = vn in d.vars
            a = ["--variable=" + vn, "--filename=f0.nc"] if longopt else ["-f", "f0.nc", "-v", vn]
        else:
            exp = vn in d.vars and an in d.vars[vn].attrs
            a = ["-f", "f0.nc", "--attribute=" + an, "-v", vn] if longopt else ["-f", "f0.nc", "-v", vn, "-a", an]
        r = ctx.ok("ncexists", *a)
        if r.out.strip() != ("1" if exp else "0"):
            raise Violation("ncexists %s printed %r, expected %d" % (a, r.out, exp))
        answers.add(exp)
    for d, n in zip(sets, names):
        exp = any(x in d.vars and "compress" in d.vars[x].attrs for x in d.dims)
        r = ctx.run("is-compressed", n)
        if (r.rc == 0) != exp or r.rc not in (0, 255):
            raise Violation("is-compressed: exit status %d, expected %d: %s" % (r.rc, 0 if exp else 255, r.brief()))
        answers.add(exp)
        ctx.label("compressed" if exp else "not-compressed")
    exp = []
    for d in sets:
        for n, v in d.vars.items():
            if v.dtype == "char" or n.endswith(("_T1", "_T2", "_DT", "_NITEMS")):
                continue
            rec = bool(v.dims) and v.dims[0] in d.unlim
            rank = len(v.dims) - rec
            if (c["t"] if rec else c["s"]) and str(rank) in c["ranks"]:
                exp.append(n)
    fl = ("s" if c["s"] else "") + ("t" if c["t"] else "") + c["ranks"]
    fl = ["-" + fl] if c["flagstyle"] else ["-" + x for x in fl]
    r = ctx.ok("list_ncvars.sh", *fl, *names, env={"PKGLIBEXECDIR": B.BIN})
    if r.out.split() != exp:
        raise Violation("list_ncvars %s printed %s, expected %s" % (fl, r.out.split(), exp))
    bad = c["bad"]
    if bad:
        ctx.label("bad=" + bad)
        if bad == "missing":
            t = "nothere.nc"
        else:
            t = "junk.nc"
            open(ctx.path(t), "w").write("this is not netCDF\n" * 20)
            h0[t] = hashlib.sha1(open(ctx.path(t), "rb").read()).hexdigest()
        for tool, a in (("ncexists", ["-f", t, "-v", "temp"]), ("ncexists", ["-f", t, "-g", "title"]), ("is-compressed", [t])):
            r = ctx.run(tool, *a)
            if r.rc == 0 or r.out.strip() in ("0", "1"):
                raise Violation("%s answers about an unreadable file: %s" % (tool, r.brief()))
            if tool == "is-compressed" and r.rc == 255:
                raise Violation("is-compressed says 'not compressed' of an unreadable file: " + r.brief())
        if bad == "missing":
            r = ctx.run("list_ncvars.sh", *fl, names[0], t, env={"PKGLIBEXECDIR": B.BIN})
            if r.rc == 0:
                raise Violation("list_ncvars.sh succeeds on a missing file: " + r.brief())
        r = ctx.run("list_ncvars.sh", *[x for x in ("-s" if c["s"] else "-t",) if c["flagstyle"]] or ["-" + c["ranks"]], names[0],
                    env={"PKGLIBEXECDIR": B.BIN})
        if r.rc == 0:
            raise Violation("list_ncvars.sh does not report that nothing was requested: " + r.brief())
    h1 = {f: hashlib.sha1(open(ctx.path(f), "rb").read()).hexdigest() for f in os.listdir(ctx.dir)}
    if h0 != h1:
        raise Violation("a query changed the directory: %s -> %s" % (sorted(h0), sorted(h1)))
    ctx.nontrivial(len(answers) == 2 and sum(len(d.vars) for d in sets) >= 3)
