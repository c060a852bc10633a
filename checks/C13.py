"""make_hgrid: cubed sphere grids, stretching, nests, global refinement, halos."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio, sph
from vlib.sph import R, D

ID = "C13"
QUICK, THOROUGH = 1500, 30000
RULE = ("Generated gnomonic_ed and conformal_cubic_grid specifications (C1-C12; shift, Schmidt and cube transformations with any target and "
        "stretching, up to three nests with any place, parent (also another nest) and refinement, global refinement, one row of halo, no lengths); "
        "every vertex, length and area is compared with the analytic cubed sphere in numpy; non-trivial = transformed, nested, refined or with halo.")
ASSUMPTIONS = ["vertices are compared to 1e-9 rad, lengths and areas to 1e-7 relative",
               "angle_dx/angle_dy of cubed sphere tiles are not checked: the code calls them a workaround",
               "the interior of the conformal grid is checked by its invariants only (covering, symmetry, orthogonality to resolution)"]
FACES = [((1, 0, 0), (0, 1, 0), (0, 0, 1)), ((0, 1, 0), (-1, 0, 0), (0, 0, 1)), ((0, 0, 1), (-1, 0, 0), (0, -1, 0)),
         ((-1, 0, 0), (0, 0, -1), (0, -1, 0)), ((0, -1, 0), (0, 0, -1), (1, 0, 0)), ((0, 0, -1), (0, 1, 0), (1, 0, 0))]


@st.composite
def cases(draw):
    c = {"type": draw(st.sampled_from(["gnomonic_ed"] * 9 + ["conformal_cubic_grid"]))}
    c["n"] = draw(st.sampled_from(list(range(1, 13)) + [16, 20, 30]))
    c["name"] = draw(st.sampled_from([None, "g", "C8_grid"]))
    c["gc"] = draw(st.booleans())
    if c["type"] != "gnomonic_ed":
        c["nratio"] = draw(st.integers(1, 3))
        return c
    c["tr"] = draw(st.sampled_from([None, None, "do_schmidt", "do_cube_transform"]))
    c["shift"] = draw(st.sampled_from([None, None, 0.0, 18.0, 12.0, 36.0, 10.0, 5.0, 90.0, 180.0]))
    c["stretch"] = draw(st.sampled_from([1.0, 1.0, 1.5, 2.0, 3.5, 0.7, 1.2, 2.7, 5.0]))
    c["lon"] = draw(st.one_of(st.sampled_from([0.0, 270.0, 17.5, 180.0, 262.4, 359.0]), st.integers(0, 719).map(lambda v: v / 2.0)))
    c["lat"] = draw(st.one_of(st.sampled_from([-90.0, 90.0, 0.0, 35.5, -12.25, 60.0]), st.integers(-178, 178).map(lambda v: v / 2.0)))
    c["mode"] = m = draw(st.sampled_from(["plain", "plain", "nest", "nest", "halo", "gr"]))
    c["nolen"] = draw(st.sampled_from([False, False, False, True]))
    c["verbose"] = draw(st.booleans())
    c["halo"] = 0
    if m == "nest":
        c["n"] = draw(st.integers(5, 10))
        c["halo"] = draw(st.integers(1, 2))
        c["nests"] = []
        sizes = []
        for k in range(draw(st.sampled_from([1, 2, 3, 1, 2, 3, 5, 7]))):
            par = draw(st.integers(1, 6 + k))
            pi, pj = (c["n"], c["n"]) if par <= 6 else sizes[par - 7]
            r = draw(st.sampled_from([2, 3, 2, 3, 4, 5])) if k < 2 else draw(st.integers(1, 3))
            h = c["halo"]
            if pi - 2 * h < 1 or pj - 2 * h < 1:
                par, pi, pj = 1, c["n"], c["n"]
            i0 = draw(st.integers(1 + h, pi - h)); i1 = draw(st.integers(i0, min(pi - h, i0 + 4)))
            j0 = draw(st.integers(1 + h, pj - h)); j1 = draw(st.integers(j0, min(pj - h, j0 + 4)))
            c["nests"].append([par, r, i0, i1, j0, j1])
            sizes.append(((i1 - i0 + 1) * r, (j1 - j0 + 1) * r))
    if m == "gr":
        c["n"] = draw(st.integers(1, 6))
        c["r"] = draw(st.sampled_from([2, 3, 2, 3, 4, 5]))
    if c["stretch"] > 4 and c["n"] < 12:
        c["stretch"] = 3.5          # (cells of a strongly stretched coarse grid are not convex)
    return c


def strategy(tier):
    return cases()


def norm(v):
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def slerp(a, b, t):
    w = sph.angle(a, b)[..., None]
    s = np.where(w < 1e-12, 1, np.sin(w))
    return norm(np.where(w < 1e-12, a, (np.sin((1 - t) * w) * a + np.sin(t * w) * b) / s))


def refine(p, r, i0, i1, j0, j1):
    """model corners of a nest from the corners p[j, i] of its parent (cells i0..i1, j0..j1, from 1)"""
    q = p[j0 - 1:j1 + 1, i0 - 1:i1 + 1]
    rows = [q[0]]
    for j in range(q.shape[0] - 1):
        rows += [slerp(q[j], q[j + 1], k / r) for k in range(1, r)] + [q[j + 1]]
    q = np.array(rows)
    cols = [q[:, 0]]
    for i in range(q.shape[1] - 1):
        cols += [slerp(q[:, i], q[:, i + 1], k / r) for k in range(1, r)] + [q[:, i + 1]]
    return np.stack(cols, 1)


def superg(p):
    j, i = p.shape[:2]
    s = np.zeros((2 * j - 1, 2 * i - 1, 3))
    s[::2, ::2] = p
    s[::2, 1::2] = norm(p[:, 1:] + p[:, :-1])
    s[1::2, ::2] = norm(p[1:] + p[:-1])
    s[1::2, 1::2] = norm(p[1:, 1:] + p[1:, :-1] + p[:-1, 1:] + p[:-1, :-1])
    return s


def model(c):
    n = c["n"]
    al = np.arcsin(1 / np.sqrt(3))
    u = np.sqrt(2) * np.tan(-al + 2 * al * np.arange(n + 1) / n)
    tiles = []
    for cc, ex, ey in np.array(FACES, "f8"):
        v = norm(cc + u[None, :, None] * ex + u[:, None, None] * ey)
        lon, lat = sph.lonlat(v)
        if c["tr"]:
            k = c["stretch"] ** 2
            s = np.sin(lat * D)
            s = np.clip(((1 - k) + (1 + k) * s) / ((1 + k) + (1 - k) * s), -1, 1)
            co = np.sqrt(1 - s * s)
            l = lon * D + (np.pi if c["tr"] == "do_cube_transform" else 0)
            sp, cp = np.sin(c["lat"] * D), np.cos(c["lat"] * D)
            v = np.stack([-s * cp + co * sp * np.cos(l), -co * np.sin(l), -(sp * s + cp * co * np.cos(l))], -1)
            # the tool's documented rounding: what comes within 1e-7 of a pole (by the sine) is the pole
            z = 1 - np.abs(v[..., 2])
            if (np.abs(z - 1e-7) < 1e-10).any():
                return None
            v = np.where((z < 1e-7)[..., None], np.sign(v[..., 2:]) * np.array([0, 0, 1.0]), v)
            a = c["lon"] * D
            v = np.stack([v[..., 0] * np.cos(a) - v[..., 1] * np.sin(a), v[..., 0] * np.sin(a) + v[..., 1] * np.cos(a), v[..., 2]], -1)
        else:
            f = 18.0 if c["shift"] is None else c["shift"]
            v = sph.xyz(lon - (180.0 / f if f > 1e-4 else 0), lat)
        tiles.append(v)
    if c["mode"] == "gr":
        tiles = [refine(p, c["r"], 1, n, 1, n) for p in tiles]
    for par, r, i0, i1, j0, j1 in c.get("nests", []):
        tiles.append(refine(tiles[par - 1], r, i0, i1, j0, j1))
    return [superg(p) for p in tiles]


def near(what, a, b, tol):
    e = np.abs(a - b)
    if a.shape != b.shape or not np.all(e <= tol):
        k = np.unravel_index(np.nanargmax(np.where(np.isfinite(e), e - tol, np.inf)), e.shape) if a.shape == b.shape else None
        raise Violation("%s: %s at %s, expected %s" % (what, a.shape if k is None else a[k], k, b.shape if k is None else b[k]))


def edges(v):
    return {"W": (v[:, 0], v[:, 1]), "E": (v[:, -1], v[:, -2]), "S": (v[0], v[1]), "N": (v[-1], v[-2])}


def neighbours(tiles):
    """{(tile, side): row of vertices beyond that side}, from coinciding edges"""
    out = {}
    for t, v in enumerate(tiles):
        for s, (e, _) in edges(v).items():
            for t2, v2 in enumerate(tiles):
                if t2 == t:
                    continue
                for s2, (e2, in2) in edges(v2).items():
                    for f in (1, -1):
                        if np.abs(e - e2[::f]).max() < 1e-9:
                            out[t, s] = in2[::f]
    return out


def run(c, ctx):
    con = c["type"] != "gnomonic_ed"
    n = c["n"]
    a = ["--grid_type", c["type"], "--nlon", 2 * n]
    if c["name"]:
        a += ["--grid_name", c["name"]]
    if c["gc"]:
        a += ["--great_circle_algorithm"]
    if con:
        a += ["--nratio", c["nratio"]]
    else:
        if c["tr"]:
            a += ["--" + c["tr"], "--stretch_factor", c["stretch"], "--target_lon", c["lon"], "--target_lat", c["lat"]]
        if c["shift"] is not None:
            a += ["--shift_fac", c["shift"]]
        if c["nolen"]:
            a += ["--no_length_angle"]
        if c["verbose"]:
            a += ["--verbose"]
        if c["mode"] == "halo":
            a += ["--out_halo", 1]
        if c["mode"] == "gr":
            a += ["--nest_grids", 1, "--parent_tile", 0, "--refine_ratio", c["r"]]
        if c.get("nests"):
            q = np.array(c["nests"])
            j = lambda x: ",".join(str(int(k)) for k in x)
            a += ["--nest_grids", len(q), "--parent_tile", j(q[:, 0]), "--refine_ratio", j(q[:, 1]), "--halo", c["halo"],
                  "--istart_nest", j(2 * q[:, 2] - 1), "--iend_nest", j(2 * q[:, 3]), "--jstart_nest", j(2 * q[:, 4] - 1), "--jend_nest", j(2 * q[:, 5])]
    ctx.label(c["type"] if con else "%s/%s" % (c["mode"], c["tr"]))
    ctx.ok("make_hgrid", *a)
    name = c["name"] or "horizontal_grid"
    want = 6 + len(c.get("nests", []))
    got = sorted(f for f in os.listdir(ctx.dir) if f.startswith(name + ".tile"))
    if got != sorted("%s.tile%d.nc" % (name, t + 1) for t in range(want)):
        raise Violation("files written: %s" % got)
    if con:
        return conformal(c, ctx, name)
    if c["tr"] or c["mode"] != "plain" or c["shift"] not in (None, 18.0):
        ctx.nontrivial()
    ref = model(c)
    if ref is None:
        return ctx.nontrivial(False)
    nb = neighbours(ref[:6]) if c["mode"] == "halo" else None
    total = 0
    for t in range(want):
        f = ncio.read(ctx.path("%s.tile%d.nc" % (name, t + 1)))
        v = {k: f.vars[k].data for k in f.vars}
        w = "tile %d" % (t + 1)
        if bytes(v["tile"].tobytes()).split(b"\0")[0].decode().strip() != "tile%d" % (t + 1):
            raise Violation("%s: name %r" % (w, v["tile"]))
        exp = set("tile x y area arcx".split()) | (set() if c["nolen"] else set("dx dy angle_dx angle_dy".split()))
        if set(v) != exp:
            raise Violation("%s has variables %s" % (w, sorted(v)))
        nest = t >= 6
        if (f.attrs.get("nest_grids") == "TRUE") != nest:
            raise Violation("%s: nest_grids attribute %r" % (w, f.attrs.get("nest_grids")))
        if not np.isfinite(v["x"]).all() or not np.isfinite(v["y"]).all() or np.abs(v["y"][v["y"] > -9000]).max() > 90 + 1e-9:
            raise Violation("%s: coordinates out of range" % w)
        p = sph.xyz(v["x"], v["y"])
        m = ref[t]
        hal = c["mode"] == "halo"
        pin = p[1:-1, 1:-1] if hal else p
        if pin.shape != m.shape:
            raise Violation("%s has %s vertices, expected %s" % (w, pin.shape, m.shape))
        snap = np.full(m.shape[:2], 1e-9)
        if c["tr"]:
            snap = np.maximum(snap, 1e-8 if c["lat"] % 90 == 0 else 0)
        e = np.linalg.norm(pin - m, axis=-1)
        if not (e <= snap).all():
            k = np.unravel_index((e - snap).argmax(), e.shape)
            q = v["x"][1:-1, 1:-1] if hal else v["x"], v["y"][1:-1, 1:-1] if hal else v["y"]
            raise Violation("%s vertex %s is at %s, expected %s" % (w, k, (q[0][k], q[1][k]), np.array(sph.lonlat(m[k]))))
        x, y = v["x"], v["y"]
        rt = 2e-7
        gx, gy, ga = sph.gc_dx(x, y), sph.gc_dy(x, y), sph.gc_area(x, y)
        if hal:
            miss = np.zeros(x.shape, bool)
            miss[[0, 0, -1, -1], [0, -1, 0, -1]] = True
            if not np.array_equal(x < -9000, miss) or not np.array_equal(y < -9000, miss):
                raise Violation("%s: halo points missing other than the four corners" % w)
            for s, sl in (("W", p[1:-1, 0]), ("E", p[1:-1, -1]), ("S", p[0, 1:-1]), ("N", p[-1, 1:-1])):
                if np.abs(sl - nb[t, s]).max() > 1e-8:
                    raise Violation("%s: the %s halo is not the neighbour's row" % (w, s))
        ar = v["area"]
        gr = c["mode"] == "gr"
        am = ar < -9000
        cm = np.zeros(ar.shape, bool)
        if hal:
            cm[[0, 0, -1, -1], [0, -1, 0, -1]] = True
            if not np.array_equal(am, cm):
                raise Violation("%s: areas missing at %s" % (w, np.argwhere(am != cm).tolist()))
        arel = (0.05 if gr and not c["tr"] else 1e-6)
        near(w + " area", np.where(cm, 0, ar), np.where(cm, 0, ga), np.abs(ga) * arel + ga.max() * 1e-8 + (1e-9 * R * R if c["tr"] else 0))
        if t < 6:
            total += (ar[1:-1, 1:-1] if hal else ar).sum()
        if not c["nolen"]:
            for k, g in (("dx", gx), ("dy", gy)):
                d = v[k]
                miss = np.zeros(d.shape, bool)
                if hal:
                    miss[[0, 0, -1, -1], [0, -1, 0, -1]] = True
                    if not np.array_equal(d < -9000, miss):
                        raise Violation("%s: %s missing at %s" % (w, k, np.argwhere((d < -9000) != miss).tolist()))
                near(w + " " + k, np.where(miss, 0, d), np.where(miss, 0, g), np.abs(g) * (0.15 if gr and k == "dy" else rt) + 2e-1)
    if (n > 3 or not c["tr"] or c["stretch"] == 1) and abs(total / (4 * np.pi * R * R) - 1) > 1e-7:
        raise Violation("the tiles' total area is %.12g of the sphere's" % (total / (4 * np.pi * R * R)))


def conformal(c, ctx, name):
    ctx.nontrivial(c["n"] > 1)
    tiles, total = [], 0
    for t in range(6):
        f = ncio.read(ctx.path("%s.tile%d.nc" % (name, t + 1)))
        v = {k: f.vars[k].data for k in f.vars}
        if v["x"].shape != (2 * c["n"] + 1,) * 2:
            raise Violation("tile %d has %s vertices" % (t + 1, v["x"].shape))
        p = sph.xyz(v["x"], v["y"])
        tiles.append(p)
        total += v["area"].sum()
        w = "tile %d" % (t + 1)
        rx, ra = (1e-9, 1e-9) if c["nratio"] == 1 else (0.01, 0.1)    # with nratio the sums over a finer grid
        for k, g, tol in (("dx", sph.gc_dx, rx), ("dy", sph.gc_dy, rx), ("area", sph.gc_area, ra)):
            g = g(v["x"], v["y"])
            near(w + " " + k, v[k], g, g * tol)
        a, b = p[1:-1, 2:] - p[1:-1, :-2], p[2:, 1:-1] - p[:-2, 1:-1]
        la, lb = np.linalg.norm(a, axis=-1), np.linalg.norm(b, axis=-1)
        co = np.abs((a * b).sum(-1)) / la / lb
        k = co.shape[0]
        if k > 2:
            co[[0, 0, -1, -1], [0, -1, 0, -1]] = 0
        if co.max() > 0.1:
            raise Violation("%s: the grid lines are not orthogonal (%g)" % (w, co.max()))
        if (np.abs(np.log(la / lb)) > 0.5).any():
            raise Violation("%s: the cells are stretched by %g" % (w, np.exp(np.abs(np.log(la / lb)).max())))
    if abs(total / (4 * np.pi * R * R) - 1) > 1e-9:
        raise Violation("the tiles' total area is %.12g of the sphere's" % (total / (4 * np.pi * R * R)))
    e = neighbours(tiles)
    if len(e) != 24:
        raise Violation("the six tiles do not share their edges: %s" % sorted(e))
