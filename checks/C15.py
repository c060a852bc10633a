"""make_vgrid: vertical grids."""
import os
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import PchipInterpolator
from vlib.engine import Violation
from vlib import ncio

ID = "C15"
QUICK, THOROUGH = 4000, 80000
RULE = ("Generated vertical grids (1-30 regions by number of points, or 1-5 regions by nominal resolution with stretching of the last; t/c/no "
        "centring) and specifications that do not fit together; zeta is compared with numpy formulas; non-trivial = more than one region or stretching.")
ASSUMPTIONS = ["positions are compared to 1e-9 of the range"]


@st.composite
def cases(draw):
    c = {"legacy": draw(st.booleans()), "name": draw(st.sampled_from([None, "v", "ocean_vgrid"])), "center": draw(st.sampled_from(["none", "t_cell", "c_cell", None]))}
    c["z0"] = draw(st.sampled_from([0.0, 0.0, 5.5, -3.0]))
    if c["legacy"]:
        k = draw(st.integers(1, 5))
        c["d"] = [draw(st.sampled_from([10.0, 10.0, 20.0, 5.0, 12.5, 100.0])) for _ in range(k + 1)]
        c["n"] = [draw(st.integers(2, 8)) for _ in range(k)]
        c["stretch"] = draw(st.sampled_from([None, None, 1.0, 1.3, 2.0]))
        c["w"] = draw(st.sampled_from([0, 0, 33.0, 1234.5]))
    else:
        k = draw(st.one_of(st.integers(1, 5), st.integers(6, 30)))
        c["n"] = [draw(st.integers(1, 8)) for _ in range(k)]
        c["w"] = [draw(st.sampled_from([1.0, 5.0, 10.0, 220.0, 5000.0, 0.125])) for _ in range(k)]
    c["bad"] = draw(st.sampled_from([None] * 6 + ["bnds", "n", "nb"]))
    return c


def strategy(tier):
    return cases()


def pos(c, center):
    """bounds, vertex positions (None: not a valid specification)"""
    b = [c["z0"]]
    if not c["legacy"]:
        for w in c["w"]:
            b.append(b[-1] + w)
        ref = 1 if center == "none" else 2
        if any(n % ref for n in c["n"]):
            return b, None
        k = np.concatenate([[0], np.cumsum(c["n"])])
        t = PchipInterpolator(k / ref, b)(np.arange(k[-1] // ref + 1)) if len(b) > 2 else np.linspace(b[0], b[1], k[-1] // ref + 1)
        if center == "none":
            return b, t
        m = 0.5 * (t[1:] + t[:-1])
        g = np.zeros(2 * len(m) + 1)
        g[::2], g[1::2] = t, m
        if center == "c_cell":
            g[2:-1:2] = 0.5 * (m[1:] + m[:-1])
        return b, g
    d, s = list(c["d"]), c["stretch"] or 1.0
    for l, n in enumerate(c["n"]):
        b.append(b[-1] + n * 0.5 * (d[l] + d[l + 1]))
    if s != 1 and c["w"]:
        b[-1] = b[-2] + c["w"]
    if center == "none" and len(b) > 2:
        return b, None
    if center == "t_cell" and s != 1:
        return b, None
    delta = []
    for l, n in enumerate(c["n"]):
        last = l == len(c["n"]) - 1
        d1 = d[l + 1] * (s if last else 1)
        avg, chg, wid = 0.5 * (d[l] + d1), d1 - d[l], b[l + 1] - b[l]
        if center == "t_cell":
            delta += [avg - 0.5 * chg * np.cos(np.pi / n * (i + 0.5)) for i in range(n)]
        elif not last or s == 1:
            delta += [avg - 0.5 * chg * np.cos(np.pi / n * i) for i in range(1, n + 1)]
        else:                     # as many cells of the stretched region as fit
            n = int(np.floor(wid / avg + 0.5))
            if n == 0:
                return b, "skip"
            tot, i = 0.5 * (d[l] - d[l + 1]), 0
            while True:
                i += 1
                x = avg - 0.5 * chg * np.cos(np.pi / n * i)
                if abs(tot + x - wid * (1 + 1e-5)) < 1e-6 * wid or i > 200:
                    return b, "skip"
                if tot + x > wid * (1 + 1e-5):
                    break
                tot += x
                delta.append(x)
    if not delta:
        return b, "skip"
    g = [b[0]]
    if center == "t_cell":
        for x in delta:
            g += [g[-1] + x / 2, g[-1] + x]
    else:
        g.append(g[0] + 0.5 * d[0])
        for x in delta[:-1]:
            g += [g[-1] + x / 2, g[-1] + x]
        g.append(g[-1] + 0.5 * delta[-1])
    return b, np.array(g)


def run(c, ctx):
    center = c["center"] or "none"
    b, z = pos(c, center)
    if isinstance(z, str):
        ctx.label("undecided by rounding")
        return
    f = lambda v: ",".join("%.10g" % x for x in v)
    nb, bb, n = len(b), list(b), list(c["d"] if c["legacy"] else c["n"])
    if c["bad"] == "bnds":
        bb = bb[:-1]
    elif c["bad"] == "nb":
        nb += 1
    elif c["bad"] == "n":
        n = n + n[:1]
    a = ["--nbnds", nb, "--bnds", f(bb), "--dbnds" if c["legacy"] else "--nz", f(n)]
    if c["legacy"] and c["stretch"]:
        a += ["--stretch", c["stretch"]]
    if c["name"]:
        a += ["--grid_name", c["name"]]
    if c["center"]:
        a += ["--center", center]
    ctx.label(("legacy " if c["legacy"] else "") + center)
    ok = z is not None and not c["bad"]
    name = (c["name"] or "vertical_grid") + ".nc"
    if not ok:
        ctx.label("rejected")
        p = ctx.run("make_vgrid", *a)
        if p.rc == 0:
            raise Violation("an inconsistent specification is accepted: %s" % a)
        if p.rc < 0 or os.path.exists(ctx.path(name)):
            raise Violation("a rejected specification ends with status %s, output written: %s" % (p.rc, os.path.exists(ctx.path(name))))
        return
    ctx.nontrivial(len(b) > 2 or bool(c["legacy"] and c["stretch"]))
    ctx.ok("make_vgrid", *a)
    d = ncio.read(ctx.path(name))
    if list(d.vars) != ["zeta"]:
        raise Violation("variables %s" % list(d.vars))
    v = d.vars["zeta"]
    if v.attrs.get("units") != "meters" or v.data.dtype != np.float64:
        raise Violation("zeta is %s in %r" % (v.data.dtype, v.attrs.get("units")))
    if v.data.shape != z.shape:
        raise Violation("zeta has %d points, expected %d: %s" % (v.data.size, z.size, v.data[:20]))
    e = np.abs(v.data - z)
    if not (e <= 1e-9 * (abs(b[-1]) + 1)).all():
        raise Violation("zeta[%d] = %r, expected %r" % (e.argmax(), v.data[e.argmax()], z[e.argmax()]))
    if not (np.diff(v.data) > 0).all():
        raise Violation("zeta is not increasing")
