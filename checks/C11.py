"""plevel.sh: fields on hybrid levels are interpolated to pressure levels in log pressure."""
import os, subprocess
import netCDF4
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation, B
from vlib import ncio
from vlib.ncio import DS, DT, Var

ID = "C11"
QUICK, THOROUGH = 2500, 50000
RULE = ("Files with a generated hybrid coordinate (zero or positive top, pure sigma), surface pressure, below-ground missing values, "
        "full- and half-level, 2-D and static fields (float, double, packed short) are interpolated to generated levels with generated "
        "options (-a, -3, field list, slp, hght, -x, -m, -t), possibly after a failed run; every value is compared with a numpy model; "
        "non-trivial = a level field with points both inside and outside the model's pressure range, or slp/hght.")
ASSUMPTIONS = ["humidity below ground with -x is compared to 0.1% (vapour pressure table), and only where the vapour pressure is below 70% of the pressure",
               "all level fields of a file share the same below-ground mask; at least two levels are above ground",
               "values are compared to 2e-6 of the field's magnitude (float), 1e-9 (double), half a packing step (short)"]
GRAV, RD, RV = 9.80, 287.04, 461.50


@st.composite
def cases(draw):
    c = {}
    c["n"] = [draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(2, 6)), draw(st.integers(1, 4))]
    c["coord"] = draw(st.sampled_from(["sigma", "hybrid", "hybrid0"]))
    c["below"] = draw(st.sampled_from([False, False, True]))
    c["res"] = draw(st.sampled_from([None, None, None, 1.0, 1.2]))
    c["have"] = sorted(draw(st.sets(st.sampled_from(["temp", "sphum", "zsurf"])))) if draw(st.booleans()) else ["sphum", "temp", "zsurf"]
    fs = []
    for i in range(draw(st.integers(0, 4))):
        fs.append(dict(kind=draw(st.sampled_from(["full", "full", "half", "2d", "static"])), type=draw(st.sampled_from(["float", "double", "short"])),
                       miss=draw(st.sampled_from(["missing_value", "_FillValue", None]))))
    c["fields"] = fs
    c["ttype"] = draw(st.sampled_from(["float", "double"]))
    c["p"] = draw(st.one_of(st.none(), st.lists(st.integers(100, 110000), min_size=1, max_size=6, unique=True)))
    c["sel"] = draw(st.sampled_from(["-a", "-a", "-3", "list", "list"]))
    c["pick"] = draw(st.integers(0, 2 ** 12))
    c["slp"] = draw(st.booleans())
    c["hght"] = draw(st.booleans())
    c["x"] = draw(st.booleans())
    c["m"] = draw(st.sampled_from([False, False, True]))
    c["t"] = draw(st.sampled_from([None, None, None, [2, 0, 0], [1, 2, 0], [1, 0, 2], [2, 3, 1], [0, 0, 3]]))
    c["z0"] = draw(st.booleans())
    c["bnds"] = draw(st.booleans())
    c["fmt"] = draw(st.sampled_from(ncio.FORMATS[:2] + ["NETCDF4", "NETCDF4_CLASSIC"]))
    c["badfirst"] = draw(st.sampled_from([False, False, False, True]))
    c["seed"] = draw(st.integers(0, 2 ** 31))
    return c


def strategy(tier):
    return cases()


def build(c):
    rng = np.random.default_rng(c["seed"])
    nx, ny, nz, nt = c["n"]
    ds = DS()
    for d, n in (("lon", nx), ("lat", ny), ("pfull", nz), ("phalf", nz + 1)):
        ds.add_dim(d, n)
    if c["bnds"]:
        ds.add_dim("bnds", 2)
    ds.add_dim("time", nt, True)
    ds.vars["lon"] = Var("double", ("lon",), np.arange(nx) * 30.0, {"units": "degrees_E", "cartesian_axis": "X"})
    ds.vars["lat"] = Var("double", ("lat",), np.arange(ny) * 20.0 - 40, {"units": "degrees_N", "cartesian_axis": "Y"})
    ds.vars["pfull"] = Var("float", ("pfull",), np.arange(nz, dtype="f4"), {})
    ds.vars["phalf"] = Var("float", ("phalf",), np.arange(nz + 1, dtype="f4"), {})
    ta = {"units": "days since 2000-01-01", "cartesian_axis": "T"}
    if c["bnds"]:
        ta["bounds"] = "time_bnds"
    ds.vars["time"] = Var("double", ("time",), 0.5 + np.arange(nt), ta)
    if c["bnds"]:
        ds.vars["time_bnds"] = Var("double", ("time", "bnds"), np.stack([np.arange(nt), np.arange(nt) + 1.0], 1), {"long_name": "b"})
    s = np.sort(rng.choice(np.arange(2, 98), nz - 1, replace=False)) / 100.0
    s = np.concatenate([[0.0 if c["coord"] != "hybrid" else 0.01], np.maximum(s, 0.015), [1.0]])
    s = np.maximum.accumulate(s + np.arange(nz + 1) * 1e-6)
    s[-1] = 1.0
    if c["coord"] == "sigma":
        b, a = s.copy(), np.zeros(nz + 1)
    else:
        b = ((s - s[0]) / (1 - s[0])) ** 2
        a = 1e5 * (s - b)
        a[-1] = 0
    ds.vars["pk"] = Var("double", ("phalf",), a, {"units": "pascal"})
    ds.vars["bk"] = Var("double", ("phalf",), b, {"units": "none"})
    ps = rng.uniform(62000, 104000, (nt, ny, nx))
    ds.vars["ps"] = Var(c["ttype"], ("time", "lat", "lon"), ps.astype(DT[c["ttype"]]), {"units": "Pa"})
    if c["res"]:
        ds.vars["res"] = Var("double", ("lat", "lon"), np.where(rng.integers(0, 2, (ny, nx)) > 0, c["res"], 1.0), {})
    kbot = np.full((nt, ny, nx), nz)
    if c["below"]:
        kbot = rng.integers(2, nz + 1, (nt, ny, nx))
    mask = np.arange(1, nz + 1)[None, :, None, None] > kbot[:, None]
    hmask = np.arange(1, nz + 2)[None, :, None, None] > kbot[:, None] + 1

    def add(name, kind, ty, miss, lo, hi):
        dims = {"full": ("time", "pfull", "lat", "lon"), "half": ("time", "phalf", "lat", "lon"), "2d": ("time", "lat", "lon"),
                "static": ("lat", "lon")}[kind]
        shp = tuple(ds.dims[d] for d in dims)
        v = rng.uniform(lo, hi, shp)
        at = {"units": "u", "long_name": name}
        if ty == "short":
            sf = 3 * (hi - lo) / 60000.0      # (room for extrapolation)
            off = (hi + lo) / 2
            at["scale_factor"], at["add_offset"] = np.float64(sf), np.float64(off)
            v = np.round((v - off) / sf).astype("i2")
            mv = np.int16(-32700)
        else:
            v = v.astype(DT[ty])
            mv = np.asarray(-999.0 if ty == "float" else 1e20, dtype=DT[ty])[()]
        lev = kind in ("full", "half")
        if c["below"] and lev and not miss:
            miss = "missing_value"
        if miss:
            at[miss] = mv
            if lev:
                v = np.where(mask if kind == "full" else hmask, mv, v).astype(v.dtype)
            else:
                v = np.where(rng.integers(0, 5, shp) == 0, mv, v).astype(v.dtype)
        ds.vars[name] = Var(ty, dims, v, at)

    # (only temp has a missing value without "below": it decides about the bottom level)
    if "temp" in c["have"]:
        add("temp", "full", c["ttype"], "missing_value", 200, 280)
    if "sphum" in c["have"]:
        add("sphum", "full", c["ttype"], "missing_value", 0, 0.02)
    if "zsurf" in c["have"]:
        ds.vars["zsurf"] = Var("float", ("lat", "lon"), np.where(rng.integers(0, 3, (ny, nx)) > 0, rng.uniform(-50, 3000, (ny, nx)), 0).astype("f4"), {"units": "m"})
    for i, f in enumerate(c["fields"]):
        add("f%d_%s" % (i, f["kind"]), f["kind"], f["type"], f["miss"], -50, 70)
    if c["below"] and not any(v.dims[1:2] == ("pfull",) for v in ds.vars.values()):
        add("full", "full", "float", "missing_value", -1, 1)    # (the mask is taken from a full-level field)
    ds.attrs["title"] = "model"
    ds.attrs["filename"] = "in.nc"
    return ds, kbot


def unpack(v):
    x = v.data.astype("f8")
    mv = v.attrs.get("missing_value", v.attrs.get("_FillValue"))
    bad = np.zeros(x.shape, bool) if mv is None else v.data == mv
    if "scale_factor" in v.attrs:
        x = x * v.attrs["scale_factor"] + v.attrs["add_offset"]
    return x, bad, mv


def interp(lp_lev, kb, lpo, d):
    """lp_lev (nz), kb = number of usable levels; -> value, below?"""
    for k in range(1, kb):
        if lpo <= lp_lev[k]:
            below = False
            break
    else:
        k, below = kb - 1, True
    with np.errstate(all="ignore"):
        f = (lpo - lp_lev[k]) / (lp_lev[k - 1] - lp_lev[k])
    f = max(-0.5, min(1.5, f))
    return d[k] + f * (d[k - 1] - d[k]), below, k


def esat(t):
    """saturation vapour pressure (Goff-Gratch, ice below -20 C, water above 0 C, blended between)"""
    tb, tw = 273.16, 373.16
    ice = 10 ** (-9.09718 * (tb / t - 1) - 3.56654 * np.log10(tb / t) + 0.876793 * (1 - t / tb) + np.log10(610.71))
    wat = 10 ** (-7.90298 * (tw / t - 1) + 5.02808 * np.log10(tw / t) - 1.3816e-7 * (10 ** ((1 - t / tw) * 11.344) - 1)
                 + 8.1328e-3 * (10 ** ((tw / t - 1) * -3.49149) - 1) + np.log10(101324.6))
    w = min(1.0, max(0.0, (t - tb + 20) / 20))
    return (1 - w) * ice + w * wat


def qbelow(q, t, p, to, po):
    """humidity below ground at the same relative humidity; None where the air cannot be saturated"""
    e, eo = esat(t), esat(to)
    if e > 0.7 * p or eo > 0.7 * po:
        return None
    r = q / (1 - q) * (eo / (po - eo)) / (e / (p - e))
    return r / (1 + r)


def tbelow(t, lpo, lp):
    r = 0.5 * RD / GRAV * (lpo - lp)
    return t * (1 / 6.5e-3 + r) / (1 / 6.5e-3 - r)


def model(ds, kbot, pout, has):
    """per time: pressure tables"""
    ps = ds.vars["ps"].data.astype("f8")
    if "res" in ds.vars:
        ps = ps * ds.vars["res"].data
    a, b = ds.vars["pk"].data, ds.vars["bk"].data
    ph = a[None, :, None, None] + b[None, :, None, None] * ps[:, None]
    with np.errstate(all="ignore"):
        l = np.where(ph > 0, ph * np.log(ph), 0)
        pf = np.exp((l[:, 1:] - l[:, :-1]) / (ph[:, 1:] - ph[:, :-1]) - 1)
        return ph, pf, np.log(ph), np.log(pf)


def run(c, ctx):
    ds, kbot = build(c)
    nx, ny, nz, nt = c["n"]
    ds.write(ctx.path("in.nc"), c["fmt"])
    nc4 = c["fmt"].startswith("NETCDF4")
    zin, sin, zopt, sopt = [(0, 0, None, None), (3, 1, None, None), (2, 0, 0, None), (5, 1, None, 0), (4, 0, 1, 1), (0, 0, 6, None), (1, 1, 9, 0)][c["pick"] // 2 % 7]
    if nc4 and zin:
        subprocess.run(["nccopy", "-d", str(zin)] + (["-s"] if sin else []) + ["in.nc", "tmp.nc"], cwd=ctx.dir, check=True)
        os.replace(ctx.path("tmp.nc"), ctx.path("in.nc"))
    rng = np.random.default_rng(c["pick"])
    special = []
    if c["hght"] and "temp" in c["have"] and ("sphum" in c["have"] or c["z0"]) and ("zsurf" in c["have"] or c["z0"]):
        special.append("hght")
    if c["slp"] and "temp" in c["have"] and ("zsurf" in c["have"] or c["z0"]):
        special.append("slp")
    lev = [n for n, v in ds.vars.items() if len(v.dims) == 4]
    flat = [n for n, v in ds.vars.items() if v.dims in (("time", "lat", "lon"), ("lat", "lon")) and n != "res"]
    args = ["-i", "in.nc", "-o", "out.nc", "-d", "0"]
    if c["sel"] == "-a":
        args += ["-a"]
        want = lev + flat
    elif c["sel"] == "-3":
        args += ["-3"]
        want = list(lev)
    else:
        want = [n for n in lev + flat if rng.integers(0, 2)] or ["ps"]
    if c["sel"] != "list" and not want and not special:
        ctx.label("nothing to do")
        return
    if c["p"]:
        args += ["-p", " ".join(str(p) for p in c["p"])]
    pout = np.array(c["p"] or [100000, 92500, 85000, 70000, 60000, 50000, 40000, 30000, 25000, 20000, 15000, 10000, 7000, 5000, 3000, 2000, 1000], "f8")
    if c["x"] and "temp" in ds.vars:
        # the vapour pressure table ends at 373 K: no extrapolation far below the lowest level
        T0, P0 = unpack(ds.vars["temp"])[0], model(ds, kbot, pout, None)[1]
        for t in range(nt):
            for j in range(ny):
                for i in range(nx):
                    k = kbot[t, j, i] - 1
                    r = max(0, 0.5 * RD / GRAV * np.log(pout.max() / P0[t, k - 1:k + 1, j, i].min()))
                    if T0[t, k - 1:k + 1, j, i].max() * (1 / 6.5e-3 + r) / max(1e-9, 1 / 6.5e-3 - r) > 370:
                        c["x"] = False
    if c["x"]:
        args += ["-x"]
    if c["m"]:
        args += ["-m"]
    if c["z0"]:
        args += ["-0"]
    if c["t"]:
        args += ["-t", ",".join(str(x) for x in c["t"])]
    if zopt is not None:
        args += ["-z", zopt]
    if sopt is not None:
        args += ["-s", sopt]
    extra = list(special) + (want if c["sel"] == "list" else [])
    if c["pick"] % 2:
        extra = extra[::-1]
    env = {"PKGLIBEXECDIR": B.BIN}
    if c["badfirst"]:
        DS().write(ctx.path("bad.nc"), c["fmt"])
        r = ctx.run("plevel.sh", "-i", "bad.nc", "-o", "bad_out.nc", "-p", "50000", "-a", env=env)
        if r.rc == 0:
            raise Violation("exit status 0 for a file without levels: " + r.brief())
        ctx.label("after a failed run")
    ctx.ok("plevel.sh", *args, *extra, env=env)
    if os.path.exists(ctx.path("plev.input.nml")):
        raise Violation("the namelist is left behind")
    got = ncio.read(ctx.path("out.nc"))
    if got.format != c["fmt"]:
        raise Violation("format %s, expected %s" % (got.format, c["fmt"]))
    if nc4:
        # compressed as the input, or as asked
        z = zin if zopt is None else zopt
        s = bool(z) and bool(sin if sopt is None else sopt)
        with netCDF4.Dataset(ctx.path("out.nc")) as d:
            for n in d.variables:
                f = d[n].filters()
                if n in ds.vars and d[n].ndim and ((f["complevel"] if f["zlib"] else 0) != z or f["shuffle"] != s):
                    raise Violation("%s: deflation %s and shuffle %s of the output, expected %s and %s" % (n, f["complevel"], f["shuffle"], z, s))
        ctx.label("compressed" if z else "not compressed")
    t0, t1, dt = c["t"] or [0, 0, 0]
    times = list(range(max(1, t0), min(t1 or nt, nt) + 1, max(1, dt)))
    exp_vars = set(want) | set(special) | {"lon", "lat", "level", "time"} | ({"time_bnds"} if c["bnds"] else set())
    if set(got.vars) != exp_vars:
        raise Violation("variables %s, expected %s" % (sorted(got.vars), sorted(exp_vars)))
    if got.dims.get("time") != len(times) or got.dims.get("level") != len(pout):
        raise Violation("dimensions %s, expected %d times and %d levels" % (dict(got.dims), len(times), len(pout)))
    if not np.allclose(got.vars["level"].data, pout * 0.01, rtol=1e-6):
        raise Violation("levels %s" % got.vars["level"].data)
    for n in ("lon", "lat"):
        if not np.array_equal(got.vars[n].data, ds.vars[n].data):
            raise Violation("axis %s changed" % n)
    ti = [t - 1 for t in times]
    for n in ["time"] + (["time_bnds"] if c["bnds"] else []):
        if not np.array_equal(got.vars[n].data, ds.vars[n].data[ti]):
            raise Violation("%s: %s" % (n, got.vars[n].data))
    ph, pf, lph, lpf = model(ds, kbot, pout, c["have"])
    lpo = np.log(pout)
    inside = outside = False
    T = unpack(ds.vars["temp"])[0] if "temp" in ds.vars else None
    FILL = {"float": np.float32(9.9692099683868690e+36), "double": 9.9692099683868690e+36, "short": -32767, "int": -2147483647}

    def outmiss(v, mv):
        return mv if not c["m"] else FILL[v.dtype]

    for n in want:
        v, g = ds.vars[n], got.vars[n]
        if g.dtype != v.dtype:
            raise Violation("%s is %s, was %s" % (n, g.dtype, v.dtype))
        x, bad, mv = unpack(v)
        for a in ("units", "long_name", "scale_factor", "add_offset"):
            if a in v.attrs and not np.array_equal(g.attrs.get(a), v.attrs[a]):
                raise Violation("attribute %s of %s: %r" % (a, n, g.attrs.get(a)))
        om = None if mv is None else outmiss(v, mv)
        if om is not None and g.attrs.get("missing_value") != om:
            raise Violation("missing_value of %s is %r, expected %r" % (n, g.attrs.get("missing_value"), om))
        if om is None and ("missing_value" in g.attrs or "_FillValue" in g.attrs):
            raise Violation("%s has no missing value, its output claims %r" % (n, g.attrs.get("missing_value", g.attrs.get("_FillValue"))))
        if n not in lev:
            e = v.data[ti] if "time" in v.dims else v.data
            b = bad[ti] if "time" in v.dims else bad
            keep = ~b if c["m"] else np.ones(b.shape, bool)
            if not np.array_equal(np.where(keep, g.data, 0), np.where(keep, e, 0)):
                raise Violation("field %s was changed" % n)
            continue
        half = v.dims[1] == "phalf"
        L, sub = (lph, 1) if half else (lpf, 0)
        gy = g.data.astype("f8")
        if "scale_factor" in v.attrs:
            gy = gy * v.attrs["scale_factor"] + v.attrs["add_offset"]
        tol = {"float": 2e-6, "double": 1e-9, "short": 1e-9}[v.dtype] * max(1.0, np.abs(x[~bad]).max() if (~bad).any() else 1)
        if v.dtype == "short":
            tol += 0.5001 * v.attrs["scale_factor"]
        for o, t in enumerate(ti):
            for j in range(ny):
                for i in range(nx):
                    kb = kbot[t, j, i] + sub
                    for k in range(len(pout)):
                        e, below, kk = interp(L[t, :, j, i], kb, lpo[k], x[t, :, j, i])
                        if abs(lpo[k] - L[t, kb - 1, j, i]) < 1e-12:
                            continue
                        if below and not c["x"] and om is not None:
                            outside = True
                            if g.data[o, k, j, i] != om:
                                raise Violation("%s at %g Pa (time %d, %d,%d) is below the lowest level but is %r, not missing" % (n, pout[k], t + 1, j, i, g.data[o, k, j, i]))
                            continue
                        y = gy[o, k, j, i]
                        if below:
                            outside = True
                            if c["x"] and n == "sphum" and "temp" in want + (["temp"] if "hght" in special else []):
                                tt = T[t, kk - 1, j, i]
                                e = qbelow(x[t, kk - 1, j, i], tt, pf[t, kk - 1, j, i], tbelow(tt, lpo[k], L[t, kk - 1, j, i]), pout[k])
                                if e is not None and not abs(y - e) <= 1e-3 * e + 1e-9:
                                    raise Violation("sphum below ground is %r, expected %r" % (y, e))
                                continue
                            if c["x"] and n == "temp":
                                e = tbelow(x[t, kk - 1, j, i], lpo[k], L[t, kk - 1, j, i])
                        else:
                            inside = True
                        if v.dtype == "short" and not (-32768 <= (e - v.attrs["add_offset"]) / v.attrs["scale_factor"] <= 32767):
                            continue    # (extrapolated beyond what can be packed; not reachable: see generator)
                        if not abs(y - e) <= tol:
                            raise Violation("%s at %g Pa (time %d, %d,%d) is %r, expected %r (%s)" % (n, pout[k], t + 1, j, i, y, e, "below ground" if below else "interpolated"))
    if special:
        q = unpack(ds.vars["sphum"])[0] if "sphum" in ds.vars else np.zeros_like(T)
        z = ds.vars["zsurf"].data.astype("f8") if "zsurf" in ds.vars else np.zeros((ny, nx))
        if "res" in ds.vars and (ds.vars["res"].data > 1.0001).any():
            z = np.zeros_like(z)
        for o, t in enumerate(ti):
            for j in range(ny):
                for i in range(nx):
                    kb = kbot[t, j, i]
                    pb = ph[t, kb, j, i]
                    if "slp" in special:
                        y = got.vars["slp"].data[o, j, i]
                        if abs(z[j, i]) > 1e-4:
                            s = pf[t, :kb, j, i] / pb
                            kr = int(np.argmax(s > 0.8)) if (s > 0.8).any() else kb - 1
                            gor = GRAV / (RD * 6.5e-3)
                            e = 0.01 * pb * (1 + 6.5e-3 * z[j, i] / (T[t, kr, j, i] * s[kr] ** (-1 / gor))) ** gor
                            near = np.abs(s - 0.8).min() < 1e-9
                        else:
                            e, near = 0.01 * pb, False
                        if not near and not abs(y - e) <= 2e-6 * e:
                            raise Violation("slp (time %d, %d,%d) is %r hPa, expected %r" % (t + 1, j, i, y, e))
                    if "hght" in special and not c["below"]:
                        # hydrostatic height of the full levels, then of the output levels
                        vt = T[t, :, j, i] * (1 + (RV - RD) / RD * q[t, :, j, i])
                        zb, zf = z[j, i] * GRAV, np.zeros(nz)
                        for k in range(nz - 1, -1, -1):
                            wb = lph[t, k + 1, j, i] - lpf[t, k, j, i]
                            wa = wb if not np.isfinite(lph[t, k, j, i]) else lpf[t, k, j, i] - lph[t, k, j, i]
                            zf[k] = (zb + vt[k] * RD * wb) / GRAV
                            zb += vt[k] * RD * (wa + wb)
                        for k in range(len(pout)):
                            to, below, kk = interp(lpf[t, :, j, i], kb, lpo[k], T[t, :, j, i])
                            y = got.vars["hght"].data[o, k, j, i]
                            if abs(lpo[k] - lpf[t, kb - 1, j, i]) < 1e-12:
                                continue
                            if below and not c["x"]:
                                om = FILL["float"] if c["m"] else -1000
                                if y != om:
                                    raise Violation("hght at %g Pa is below the lowest level but is %r" % (pout[k], y))
                                continue
                            qo = interp(lpf[t, :, j, i], kb, lpo[k], q[t, :, j, i])[0]
                            tol = 2e-6
                            if below:
                                to = tbelow(T[t, kk - 1, j, i], lpo[k], lpf[t, kk - 1, j, i])
                                if "sphum" in ds.vars:
                                    qo = qbelow(q[t, kk - 1, j, i], T[t, kk - 1, j, i], pf[t, kk - 1, j, i], to, pout[k])
                                    tol = 1e-3
                                if qo is None:
                                    continue
                            tv = to * (1 + (RV - RD) / RD * qo)
                            e = zf[kk] + (lpf[t, kk, j, i] - lpo[k]) * (tv + vt[kk]) * 0.5 * RD / GRAV
                            if not abs(y - e) <= tol * max(1000, abs(e)):
                                raise Violation("hght at %g Pa (time %d, %d,%d) is %r m, expected %r" % (pout[k], t + 1, j, i, y, e))
    ctx.label("coord=" + c["coord"], "sel=" + c["sel"], "below" if c["below"] else "all levels", *special)
    ctx.nontrivial((inside and outside) or bool(special))
