"""make_remap_file: the weights of a grid and its refinement, written and used."""
import copy
import os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio, freg, cs
from vlib.freg import D
from checks import C16
from checks.C17 import cube, smooth
from vlib import sph

ID = "C31"
QUICK, THOROUGH = 600, 15000
RULE = ("Generated pairs of a grid and its refinement by 1-5 (cubed spheres, also shifted, stretched or rotated; one or two longitude-latitude tiles, regular or irregular, any origin), in either direction, "
        "first and second order, long paths; every entry of the remap files is compared with the pairing of cells, exact polygon areas and centroids in numpy, and fregrid with these files with "
        "exact area-weighted values (second order: with a numpy Green's-theorem gradient); pairs that are not refinements must be refused; non-trivial = ratio above 1 or a refusal.")
ASSUMPTIONS = ["no cell contains a pole inside (as for the default clipping, C17)", "areas and centroids to 1e-9 of the cell; second order values to 1e-5"]


@st.composite
def cases(draw):
    c = {"kind": draw(st.sampled_from(["cs", "cs", "ll"])), "ratio": draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5])), "fine": draw(st.booleans()),
         "how": draw(st.sampled_from([None, "conserve_order1", "conserve_order2", "conserve_order2"])), "seed": draw(st.integers(0, 10 ** 6)),
         "long": draw(st.sampled_from([0, 0, 0, 40])), "suffix": draw(st.booleans()), "bad": draw(st.sampled_from([None] * 9 + ["ratio", "shift", "aspect", "tiles", "size"]))}
    if c["kind"] == "cs":
        c["n"] = draw(st.sampled_from([2, 2, 4]))
        c["shift"] = draw(st.sampled_from([None, None, 0.0, 12.0]))
    else:
        g = draw(C16.llgrid())
        c["lons"], c["lats"], c["cut"] = g["lons"], g["lats"], g["cut"]
        c["how"] = draw(st.sampled_from([None, "conserve_order1"]))
    return c


def strategy(tier):
    return cases()


def refine(a, r):
    """r - 1 points between any two along the first axis"""
    a = np.asarray(a, float)
    return np.concatenate([np.linspace(p, q, r + 1)[:-1] for p, q in zip(a[:-1], a[1:])] + [a[-1:]])


def run(c, ctx):
    c = copy.deepcopy(c)
    r = c["ratio"]
    # supergrids (x, y) of the fine and the coarse grid, tile by tile
    if c["kind"] == "cs":
        if c["bad"] == "aspect":
            c["bad"] = None
        ft, con = cube(c["n"] * r, None, c["shift"], 1.0, 0.0, -90.0)
        ct = [(x[::r, ::r], y[::r, ::r]) for x, y in ft]
        conc = cube(c["n"], None, c["shift"], 1.0, 0.0, -90.0)[1]
        if c["bad"] == "ratio":
            ct, conc = cube(c["n"] * r + 2 if c["n"] * r > 2 else 6, None, c["shift"], 1.0, 0.0, -90.0)
            if c["n"] * r % (ct[0][0].shape[0] // 2) == 0 or (ct[0][0].shape[0] // 2) % (c["n"] * r) == 0:
                c["bad"] = None
                ct, conc = [(x[::r, ::r], y[::r, ::r]) for x, y in ft], cube(c["n"], None, c["shift"], 1.0, 0.0, -90.0)[1]
    else:
        X, Y = np.meshgrid(refine(freg.mid(c["lons"]), r), refine(freg.mid(c["lats"]), r))
        if c["bad"] == "aspect":
            q = 2 * r
            X2, Y2 = np.meshgrid(refine(freg.mid(c["lons"]), r), refine(freg.mid(c["lats"]), q))
        tl = freg.cut(c["lons"], c["lats"], c["cut"])
        if c["bad"] == "ratio":
            c["bad"] = None
        if len({(j1 - j0, i1 - i0) for j0, j1, i0, i1 in tl}) > 1:
            tl = [(0, len(c["lats"]) - 1, 0, len(c["lons"]) - 1)]
        cutf = lambda A, ry, rx: [A[2 * ry * j0:2 * ry * j1 + 1, 2 * rx * i0:2 * rx * i1 + 1] for j0, j1, i0, i1 in tl]
        ft = list(zip(cutf(X, r, r), cutf(Y, r, r)))
        ct = [(x[::r, ::r], y[::r, ::r]) for x, y in ft]
        if c["bad"] == "aspect":
            ft = list(zip(cutf(X2, q, r), cutf(Y2, q, r)))
        con = conc = []
    if c["bad"] == "shift":
        k = c["seed"] % len(ft)
        x, y = ct[k]
        x, y = x.copy(), y.copy()
        j, i = 2 * (c["seed"] // 7 % ((x.shape[0] + 1) // 2)), 2 * (c["seed"] // 77 % ((x.shape[1] + 1) // 2))
        (x if c["seed"] % 3 else y)[j, i] += 0.01
        ct = list(ct)
        ct[k] = (x, y)
    if c["bad"] in ("tiles", "size") and len(ct) == 1:
        c["bad"] = None
    if c["bad"] == "size":                  # one tile is refined twice
        k = 1 + c["seed"] % (len(ft) - 1)
        ft = list(ft)
        ft[k] = tuple(refine(refine(v, 2).T, 2).T for v in ft[k])
    d = ctx.path("d" + "x" * 3 * c["long"])
    P = {}
    for nm, t, k in (("coarse", ct, conc), ("fine", ft, con)):
        if c["bad"] == "tiles" and nm == "fine":
            t, k = t[:-1], []
        P[nm] = cs.write(os.path.join(d, nm), nm + "_mosaic", t, k)
    src, dst = ("fine", "coarse") if c["fine"] else ("coarse", "fine")
    rf = os.path.join(d, "remap")
    args = ["--input_mosaic", P[src], "--output_mosaic", P[dst], "--remap_file", rf + (".nc" if c["suffix"] else "")]
    m = ["--interp_method", c["how"]] if c["how"] else []
    ctx.label(c["kind"], "ratio%d" % r, "fine->coarse" if c["fine"] else "coarse->fine", str(c["how"]), str(c["bad"]))
    if c["bad"]:
        ctx.nontrivial(True)
        q = ctx.run("make_remap_file", *args, *m)
        if q.rc < 0 or q.rc > 127:
            raise Violation("grids that are not refinements of each other (%s): crash, %s" % (c["bad"], q.rc))
        if q.rc == 0:
            raise Violation("grids that are not refinements of each other (%s) are accepted" % c["bad"])
        return
    ctx.nontrivial(r > 1)
    ctx.ok("make_remap_file", *args, *m)
    o2 = c["how"] == "conserve_order2"
    nt = len(ft)
    W, dist = [], []
    for n in range(nt):
        p = rf + ("" if nt == 1 else ".tile%d" % (n + 1)) + ".nc"
        if not os.path.exists(p):
            raise Violation("no remap file %s" % os.path.basename(p))
        o = ncio.read(p).vars
        X, Y = ft[n]
        lo, la = cs.cells(X[::2, ::2], Y[::2, ::2])
        ny, nx = lo.shape[:2]
        A = np.zeros((ny, nx, 3))
        for k in np.ndindex(ny, nx):
            q = cs.llpoly(lo[k], la[k])
            A[k] = cs.moments(q, 0.0) if c["kind"] == "cs" else ((lo[k][1] - lo[k][0]) * (np.sin(la[k][2]) - np.sin(la[k][1])), 0, 0)
        want = {}
        for j in range(ny):
            for i in range(nx):
                want[(i + 1, j + 1, i // r + 1, j // r + 1)] = A[j, i]
        got = {}
        t1, t2, ar = o["tile1_cell"].data, o["tile2_cell"].data, o["xgrid_area"].data
        if not len(t1) == len(t2) == len(ar) == len(o["tile1"].data) == nx * ny:
            raise Violation("tile %d: %d exchange cells, should be %d" % (n + 1, len(ar), nx * ny))
        if (o["tile1"].data != n + 1).any():
            raise Violation("tile %d: source tiles %s" % (n + 1, sorted(set(o["tile1"].data.tolist()))))
        for k in range(len(ar)):
            f, g = (t1[k], t2[k]) if c["fine"] else (t2[k], t1[k])
            key = (int(f[0]), int(f[1]), int(g[0]), int(g[1]))
            if key not in want or key in got:
                raise Violation("tile %d: exchange cell %s %s" % (n + 1, key, "twice" if key in got else "that does not exist"))
            got[key] = k
            a = want[key][0] * freg.R2
            if not abs(ar[k] - a) <= 1e-8 * a:
                raise Violation("tile %d: area of %s is %r, should be %r" % (n + 1, key, float(ar[k]), a))
        if o2 != ("tile1_distance" in o):
            raise Violation("tile1_distance %s" % ("missing" if o2 else "in a first order file"))
        if o2:
            di = o["tile1_distance"].data
            if c["fine"]:
                if np.abs(di).max() > 1e-12:
                    raise Violation("tile %d: distance %r of a cell from itself" % (n + 1, float(np.abs(di).max())))
            else:
                glo, gla = cs.cells(ct[n][0][::2, ::2], ct[n][1][::2, ::2])
                sc = np.zeros((ny // r, nx // r, 3))
                cent = np.zeros((ny, nx, 2))
                for j in range(ny // r):
                    for i in range(nx // r):
                        ref = cs.llpoly(glo[j, i], gla[j, i])[:, 0].mean()
                        for jj in range(j * r, j * r + r):
                            for ii in range(i * r, i * r + r):
                                q = cs.llpoly(lo[jj, ii], la[jj, ii])
                                q = q - [2 * np.pi * np.round((q[:, 0].mean() - ref) / (2 * np.pi)), 0]
                                mm = np.array(cs.moments(q, ref))
                                sc[j, i] += mm
                                cent[jj, ii] = mm[1:] / mm[0]
                dist.append(np.zeros((ny, nx, 2)))
                for (fi, fj, gi, gj), k in got.items():
                    s = sc[gj - 1, gi - 1]
                    e = cent[fj - 1, fi - 1] - s[1:] / s[0]
                    dist[-1][fj - 1, fi - 1] = e
                    if np.abs(di[k] - e).max() > 1e-7:
                        raise Violation("tile %d: distance of %s is %s, should be %s" % (n + 1, (fi, fj, gi, gj), di[k], e))
        W.append(A[..., 0])
    # ---- fregrid with these weights
    rng = np.random.default_rng(c["seed"])
    S, T = (ft, ct) if c["fine"] else (ct, ft)
    data = []
    for n in range(nt):
        x, y = S[n]
        v = smooth(sph.xyz(x[1::2, 1::2], y[1::2, 1::2]), c["seed"]) if c["seed"] % 2 else rng.uniform(-100, 300, ((x.shape[0] - 1) // 2, (x.shape[1] - 1) // 2))
        ds = ncio.DS()
        for nm, cart, q in (("grid_xt", "X", v.shape[1]), ("grid_yt", "Y", v.shape[0])):
            ds.add_dim(nm, q)
            ds.add(nm, "double", (nm,), np.arange(q) + 1.0, cartesian_axis=cart)
        ds.add("t", "double", ("grid_yt", "grid_xt"), v, units="K")
        ds.write(ctx.path("in.nc" if nt == 1 else "in.tile%d.nc" % (n + 1)))
        data.append(v)
    fa = ["--input_mosaic", P[src], "--output_mosaic", P[dst], "--input_dir", ctx.dir, "--input_file", "in", "--scalar_field", "t"] + m
    ctx.ok("fregrid", *fa, "--output_file", "out", "--remap_file", rf + ".nc")
    if o2 and not c["fine"]:
        gx, gy = cs.Gradient(ct)(np.stack(data))
    for n in range(nt):
        f = lambda b: ncio.read(ctx.path(b + ".nc" if nt == 1 else b + ".tile%d.nc" % (n + 1))).vars["t"].data
        if c["fine"]:
            q = lambda v: v.reshape(v.shape[0] // r, r, v.shape[1] // r, r).sum((1, 3))
            e, tol = q(data[n] * W[n]) / q(W[n]), 1e-6
        else:
            e, tol = np.kron(data[n], np.ones((r, r))), 1e-9
            if o2:
                e, tol = e + np.kron(gx[n], np.ones((r, r))) * dist[n][..., 0] + np.kron(gy[n], np.ones((r, r))) * dist[n][..., 1], 1e-5
        g = f("out")
        if g.shape != e.shape or np.abs(g - e).max() > tol:
            raise Violation("tile %d: fregrid with the remap file gives %s, should be %s" % (n + 1, g.tolist(), e.tolist()))
