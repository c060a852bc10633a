"""timavg: every output record is the weighted time mean of one input file."""
import os, subprocess
import netCDF4
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation, B
from vlib import ncio
from vlib.ncio import DS, DT, Var

ID = "C10"
QUICK, THOROUGH = 3500, 60000
RULE = ("1-3 files with 1-6 records each (no bounds, contiguous, uneven or climatological time bounds), static and record variables of "
        "rank 0-4 of all types, missing values (missing_value or _FillValue) and generated -m -b -w options; every output record is "
        "compared with the weighted mean of its file; non-trivial = a file with at least 2 records and an averaged variable.")
ASSUMPTIONS = ["values are compared to 1e-12 (double) or 2 ulp (float) of the largest magnitude averaged",
               "variables have at most 4 dimensions besides time, which is the last (Fortran) one",
               "history-like attributes and cell_methods text are not part of the claim except for presence rules stated"]
FMTS = ncio.FORMATS[:2] + ["NETCDF4", "NETCDF4_CLASSIC"]


@st.composite
def cases(draw):
    c = {}
    c["fmt"] = draw(st.sampled_from(FMTS))
    nf = draw(st.integers(1, 3))
    c["bounds"] = draw(st.sampled_from(["none", "even", "uneven", "uneven", "climo", "climoattr"]))
    lo = 2 if c["bounds"] in ("climo", "climoattr") else 1
    c["nrec"] = [draw(st.integers(lo, 6)) for _ in range(nf)]
    c["dims"] = [draw(st.integers(1, 3)) for _ in range(4)]
    c["order"] = draw(st.sampled_from(["front", "back", "mix"]))
    c["tname"] = draw(st.sampled_from(["time", "time", "t", "Time"]))
    c["ttype"] = draw(st.sampled_from(["double", "double", "float"]))
    c["vars"] = [dict(type=draw(st.sampled_from(["double", "float", "float", "double", "int", "short", "byte", "char"])),
                      dims=sorted(draw(st.sets(st.integers(0, 3), max_size=4))), rec=draw(st.sampled_from([True, True, True, False])),
                      miss=draw(st.sampled_from([None, None, "missing_value", "_FillValue", "both"])),
                      pm=draw(st.sampled_from([0, 10, 50, 90, 100])), cm=draw(st.sampled_from([None, "time: mean", "time: max"])),
                      name=draw(st.sampled_from([None, None, None, None, "a", "v_T1x", "average_T1", "average_DT", "n_NITEMS"])))
                 for _ in range(draw(st.integers(1, 5)))]
    # (a file with nothing to average is outside the claim)
    k = draw(st.integers(0, len(c["vars"]) - 1))
    c["vars"][k].update(type=draw(st.sampled_from(["double", "float", "int", "short"])), rec=True, name=None)
    c["m"] = draw(st.booleans())
    c["b"] = draw(st.booleans())
    c["w"] = draw(st.sampled_from([None, None, 0, 0.3, 0.5, 0.75, 1]))
    c["W"] = draw(st.booleans())
    c["a"] = draw(st.booleans())
    c["z"] = draw(st.sampled_from([None, None, 0, 1]))
    c["seed"] = draw(st.integers(0, 2 ** 31))
    return c


def strategy(tier):
    return cases()


MISS = {"double": -1e10, "float": np.float32(1e20), "int": -999, "short": -32000, "byte": -128}


def bounds(c, rng):
    """per file: times, bounds (or None)"""
    out = []
    t = 10.0
    for n in c["nrec"]:
        if c["bounds"] in ("climo", "climoattr"):
            w = float(rng.integers(5, 32))
            if c["bounds"] == "climo":
                w = [float(rng.integers(5, 32)) for _ in range(n)]
            else:
                w = [w] * n
            b = np.array([[t + 365 * k, t + 365 * k + w[k]] for k in range(n)])
            t += 31.0
        else:
            w = [2.0] * n if c["bounds"] in ("even", "none") else [float(rng.choice([1, 2, 3, 7.5, 28, 31])) for _ in range(n)]
            e = t + np.concatenate([[0], np.cumsum(w)])
            b = np.stack([e[:-1], e[1:]], 1)
            t = e[-1]
        out.append((b.mean(1), b))
    return out


def build(c):
    rng = np.random.default_rng(c["seed"])
    tb = bounds(c, rng)
    tn = c["tname"]
    hasb = c["bounds"] != "none"
    files, statics = [], {}
    used = set()
    specs = []
    for i, v in enumerate(c["vars"]):
        n = v["name"] if v["name"] and v["name"] not in used else "var%d" % i
        used.add(n)
        specs.append((n, v))
    perm = rng.permutation(len(specs) + 2)
    for (tt, b), n in zip(tb, c["nrec"]):
        ds = DS()
        for k in range(4):
            ds.add_dim("d%d" % k, c["dims"][k])
        if hasb:
            ds.add_dim("bnd", 2)
        ds.add_dim(tn, n, True)
        ta = {"units": "days since 0001-01-01 00:00:00", "cartesian_axis": "T"}
        if hasb:
            ta["climatology" if c["bounds"] == "climoattr" else "bounds"] = "tb"
        seq = [(tn, Var(c["ttype"], (tn,), tt.astype(DT[c["ttype"]]), ta))]
        if hasb:
            seq.append(("tb", Var("double", (tn, "bnd"), b, {"long_name": "time bounds"})))
        oth = []
        for name, v in specs:
            dims = tuple("d%d" % k for k in v["dims"])
            shp = tuple(c["dims"][k] for k in v["dims"])
            at = {"long_name": "variable " + name}
            if v["rec"]:
                dims, shp = (tn,) + dims, (n,) + shp
            if not v["rec"] and name in statics:
                data = statics[name]
            elif v["type"] == "char":
                data = ncio.rand_data(rng, "char", shp)
            elif v["type"] in ("double", "float"):
                data = np.asarray(rng.normal(0, 10 ** rng.integers(0, 4), shp), dtype=DT[v["type"]])
            else:
                data = np.asarray(rng.integers(-100, 100, shp), dtype=DT[v["type"]])
            if v["miss"] and v["type"] != "char":
                mv = np.asarray(MISS[v["type"]], dtype=DT[v["type"]])
                if v["miss"] in ("missing_value", "both"):
                    at["missing_value"] = mv[()]
                if v["miss"] in ("_FillValue", "both"):
                    at["_FillValue"] = mv[()]
                if not (not v["rec"] and name in statics):
                    data = np.where(rng.integers(0, 100, shp) < v["pm"], mv, data).astype(DT[v["type"]])
            if v["cm"] and v["rec"]:
                at["cell_methods"] = v["cm"]
            if not v["rec"]:
                statics.setdefault(name, data)
            oth.append((name, Var(v["type"], dims, data, at)))
        seq = seq + oth if c["order"] == "front" else oth + seq if c["order"] == "back" else seq + oth
        if c["order"] == "mix":
            seq = [seq[i] for i in perm if i < len(seq)]
        for k, v in seq:
            ds.vars[k] = v
        ds.attrs["title"] = "t"
        ds.attrs["filename"] = "x.nc"
        files.append(ds)
    return files, tb


def skipped(name, v, tn):
    if v.dtype in ("byte", "char"):
        return True
    return v.dims == (tn,) and (name[-3:] in ("_T1", "_T2", "_DT") or name[-7:] == "_NITEMS")


def run(c, ctx):
    files, tb = build(c)
    tn = c["tname"]
    hasb = c["bounds"] != "none"
    names = []
    nc4 = c["fmt"].startswith("NETCDF4")
    zin, sin, sopt = [(0, 0, None), (3, 1, None), (2, 0, None), (5, 1, 0), (4, 0, 1), (0, 0, 1)][c["seed"] % 6]
    for i, f in enumerate(files):
        names.append("in%d.nc" % i)
        f.write(ctx.path(names[-1]), c["fmt"])
        if nc4 and zin:
            subprocess.run(["nccopy", "-d", str(zin)] + (["-s"] if sin else []) + [names[-1], "tmp.nc"], cwd=ctx.dir, check=True)
            os.replace(ctx.path("tmp.nc"), ctx.path(names[-1]))
    args = ["-o", "out.nc"] + [o for k, o in (("m", "-m"), ("b", "-b"), ("W", "-W"), ("a", "-a")) if c[k]]
    if c["w"] is not None:
        args += ["-w", c["w"]]
    if c["z"] is not None:
        args += ["-z", c["z"]]
    if sopt is not None:
        args += ["-s", sopt]
    ctx.ok("timavg", *args, *names, env={"PKGLIBEXECDIR": B.BIN})
    if sorted(os.listdir(ctx.dir)) != sorted(names + ["out.nc"]):
        raise Violation("files left: %s" % sorted(os.listdir(ctx.dir)))
    got = ncio.read(ctx.path("out.nc"))
    if got.format != c["fmt"]:
        raise Violation("format %s of the output, %s of the input" % (got.format, c["fmt"]))
    if got.dims.get(tn) != len(files):
        raise Violation("%s records for %d files" % (got.dims.get(tn), len(files)))
    if nc4:
        # compressed as the input, or as asked
        with netCDF4.Dataset(ctx.path("out.nc")) as d:
            for n, v in files[0].vars.items():
                if n in d.variables and d[n].ndim:
                    f = d[n].filters()
                    z = zin if c["z"] is None else c["z"]
                    s = bool(z) and bool(sin if sopt is None else sopt)
                    if (f["complevel"] if f["zlib"] else 0) != z or f["shuffle"] != s:
                        raise Violation("%s: deflation %s and shuffle %s of the output, expected %s and %s" % (n, f["complevel"], f["shuffle"], z, s))
        ctx.label("compressed" if z else "not compressed")
    climo = hasb and c["nrec"][0] > 1 and tb[0][1][0, 1] != tb[0][1][1, 0]
    rename = climo and c["bounds"] != "climoattr"
    ctx.label("bounds=" + c["bounds"], "files=%d" % len(files), "fmt=" + c["fmt"], "climo" if climo else "contiguous")
    expected = {"climatology_bounds" if n == "tb" and rename else n for n, v in files[0].vars.items() if not skipped(n, v, tn)}
    if not hasb and c["b"]:
        expected |= {"nv", tn + "_bounds"}
    if set(got.vars) != expected:
        raise Violation("variables %s, expected %s" % (sorted(got.vars), sorted(expected)))
    for d, n in files[0].dims.items():
        if d != tn and got.dims.get(d) != n:
            raise Violation("dimension %s is %s" % (d, got.dims.get(d)))
    frac = max(min(c["w"] or 0.0, 1 - 1e-6), 0.0)
    averaged = False
    for n, v in files[0].vars.items():
        if skipped(n, v, tn):
            continue
        on = "climatology_bounds" if n == "tb" and rename else n
        g = got.vars[on]
        if g.dtype != v.dtype or g.dims != v.dims:
            raise Violation("%s is %s%s, was %s%s" % (n, g.dtype, g.dims, v.dtype, v.dims))
        for a, x in v.attrs.items():
            if a == "cell_methods":
                y = g.attrs.get(a)
                if hasb or c["b"]:
                    if y is None or not y.startswith(x) or (tn.lower() + ": mean") not in y.lower():
                        raise Violation("cell_methods of %s: %r -> %r" % (n, x, y))
            elif a == "bounds" and rename:
                if g.attrs.get("climatology") != "climatology_bounds" or "bounds" in g.attrs:
                    raise Violation("the time axis does not name the climatology bounds: %s" % g.attrs)
            elif not np.array_equal(g.attrs.get(a), x):
                raise Violation("attribute %s of %s: %r -> %r" % (a, n, x, g.attrs.get(a)))
        if tn not in v.dims:
            if not np.array_equal(np.asarray(g.data), np.asarray(v.data)):
                raise Violation("static variable %s was changed" % n)
            continue
        for k, f in enumerate(files):
            d = f.vars[n].data
            if n in (tn, "tb"):
                continue
            t, b = tb[k]
            w = (b[:, 1] - b[:, 0]) if hasb else np.ones(len(t))
            W = w.reshape((-1,) + (1,) * (d.ndim - 1)) * np.ones(d.shape)
            x = d.astype("f8")
            mv = v.attrs.get("missing_value", v.attrs.get("_FillValue"))
            ok = np.ones(d.shape, bool) if mv is None else d != mv
            sw = (W * ok).sum(0)
            with np.errstate(all="ignore"):
                e = np.where(ok, W * x, 0).sum(0) / sw
            valid = np.ones(sw.shape, bool) if mv is None else sw > frac * w.sum()
            tot = frac * w.sum()
            edge = (np.abs(sw - tot) < 1e-9 * w.sum()) & (sw > 0) & (mv is not None)
            if len(t) == 1 and mv is not None:
                # one record: the value itself
                valid, edge = ok[0], np.zeros_like(ok[0])
                e = x[0]
            y = np.asarray(g.data[k]).astype("f8")
            scale = np.maximum(1e-300, np.where(ok, np.abs(x), 0).max(0))
            if v.dtype in ("int", "short"):
                tol = 0.5 + 1e-9
            else:
                tol = scale * (1e-12 if v.dtype == "double" else 3e-7)
            good = np.where(valid, np.abs(y - e) <= tol, (y == mv) if mv is not None else False)
            if v.dtype in ("int", "short"):
                # nearest integer; a tie goes away from zero
                near = np.sign(e) * np.floor(np.abs(e) + 0.5)
                tie = np.abs(np.abs(e) + 0.5 - np.round(np.abs(e) + 0.5)) < 1e-9
                good &= np.where(valid & ~tie, y == near, True)
            good |= edge & ((np.abs(y - e) <= tol) | (y == mv))
            if not good.all():
                i = tuple(np.argwhere(~good)[0])
                raise Violation("%s record %d (file %s) at %s: %r, expected %r (valid %s, missing %r)" % (
                    n, k, names[k], i, y[i], e[i], valid[i], mv))
            averaged = averaged or len(t) > 1
    # the time axis
    bn = (tn + "_bounds") if not hasb else ("climatology_bounds" if rename else "tb")
    for k, (t, b) in enumerate(tb):
        t = t.astype(DT[c["ttype"]]).astype("f8")
        begin, end = b[0, 0], b[-1, 1]
        y = float(got.vars[tn].data[k])
        if not hasb:
            if len(t) > 1:
                begin, end = t[0] - (t[1] - t[0]), t[-1]
            else:
                begin = end = None
        if not c["m"]:
            e = t[-1]
        elif climo:
            e = b[-1].mean() if rename else t[-1]
        else:
            e = None if begin is None else 0.5 * (begin + end)
        if e is not None and abs(y - e) > 1e-3 * (c["ttype"] == "float") + 1e-9:
            raise Violation("time of record %d is %r, expected %r (%s)" % (k, y, e, "-m" if c["m"] else "end time"))
        if bn in got.vars and begin is not None:
            z = got.vars[bn].data[k]
            if np.abs(z - [begin, end]).max() > 1e-9 + 1e-3 * (c["ttype"] == "float" and not hasb):
                raise Violation("time bounds of record %d are %s, expected %s" % (k, z, [begin, end]))
    if c["b"] and not hasb:
        if got.vars[tn].attrs.get("bounds") != tn + "_bounds":
            raise Violation("-b: the time axis does not name its bounds")
    ctx.nontrivial(averaged)
