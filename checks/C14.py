"""make_solo_mosaic: contacts between the tiles of a mosaic."""
import os
import re
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio, sph, grid
from vlib.grid import text
from checks import C13

ID = "C14"
QUICK, THOROUGH = 2400, 60000
RULE = ("Generated mosaics (a longitude-latitude or plane domain cut into columns of tiles at any index with any refinement per tile, periodic in x, y, "
        "both or none, with nests inside tiles; cubed spheres plain, stretched and nested; folded single tiles) against the set of contacts known from the "
        "construction; non-trivial = more than one contact.")
ASSUMPTIONS = ["only the kinds of contact the tool documents are generated (aligned boundaries, folded north, nests aligned with their parent)"]


@st.composite
def cases(draw):
    c = {"kind": draw(st.sampled_from(["cut", "cut", "cut", "cut", "cube", "cube", "fold"])), "name": draw(st.sampled_from([None, "m", "ocean_mosaic"])),
         "slash": draw(st.booleans()), "sub": draw(st.sampled_from(["", "g", "a.b"])), "files": draw(st.sampled_from([None, "grid", "C8_t"])),
         "desc": draw(st.sampled_from([None, "some_grid"])), "rep": draw(st.sampled_from([0, 0, 0, 40]))}
    if draw(st.integers(0, 5)) == 0:
        c["files"] = "g" * 215
    if c["kind"] == "cut":
        c["px"], c["py"] = draw(st.booleans()), draw(st.sampled_from([False, False, True]))
        c["colsw"] = [draw(st.integers(3, 8)) for _ in range(draw(st.integers(1, 3)))]
        if len(c["colsw"]) == 1:
            c["colsw"][0] += 3      # a row of 4 points around the globe cannot be told from a folded one
        c["ny"] = draw(st.integers(3, 10))
        c["cuts"] = [sorted(set(draw(st.lists(st.integers(1, c["ny"] - 1), max_size=2)))) for _ in c["colsw"]]
        c["ref"] = [draw(st.sampled_from([1, 1, 1, 2, 3])) for _ in range(9)]
        c["nest"] = [draw(st.sampled_from([None, None, 2, 3])) for _ in range(9)]
        c["np"] = draw(st.lists(st.integers(0, 100), min_size=4, max_size=4))
        c["x0"] = draw(st.sampled_from([0.0, -280.0, 20.5]))
        c["perm"] = draw(st.integers(0, 10 ** 6))
    elif c["kind"] == "cube":
        c["n"] = draw(st.integers(2, 8))
        c["mode"], c["tr"] = "plain", draw(st.sampled_from([None, "do_schmidt", "do_cube_transform"]))
        c["shift"] = draw(st.sampled_from([None, 0.0, 12.0]))
        c["stretch"], c["lon"], c["lat"] = draw(st.sampled_from([1.0, 2.5])), draw(st.sampled_from([0.0, 17.5, 262.4])), draw(st.sampled_from([35.5, -12.25, 60.0]))
        c["nestt"] = draw(st.sampled_from([0, 0, 1, 3, 6]))
        c["r"] = draw(st.integers(2, 3))
    else:
        c["q"] = draw(st.integers(2, 6))
        c["ny"] = draw(st.integers(1, 6))
        c["px"] = draw(st.booleans())
        c["x0"] = draw(st.sampled_from([0.0, -280.0, 20.5]))
        c["broken"] = draw(st.sampled_from([None, None, "y", "x"]))
    return c


def strategy(tier):
    return cases()


def canon(e1, e2):
    """order-free form of a contact; an end = (tile, i0, i1, j0, j1)"""
    rev = lambda e: (e[0], e[2], e[1], e[4], e[3])
    a = [(e1, e2), (e2, e1), (rev(e1), rev(e2)), (rev(e2), rev(e1))]
    return min(a)


def side(t, s, nx, ny, a, b):
    """end for the vertices a..b (a > b: backwards) of side s of tile t"""
    lo, hi = (a + 1, b) if a < b else (a, b + 1)
    return {"E": (t, nx, nx, lo, hi), "W": (t, 1, 1, lo, hi), "S": (t, lo, hi, 1, 1), "N": (t, lo, hi, ny, ny)}[s]


def cut(c):
    """tiles [(x, y)], contacts, periods"""
    nx = sum(c["colsw"])
    big = 3.0
    dx = 360.0 / nx if c["px"] else 2.0
    rects, i0 = [], 0
    for w, cu in zip(c["colsw"], c["cuts"]):
        js = [0] + cu + [c["ny"]]
        for a, b in zip(js, js[1:]):
            rects.append((i0, i0 + w, a, b))
        i0 += w
    ref = [c["ref"][k % 9] for k in range(len(rects))]
    order = np.random.default_rng(c["perm"]).permutation(len(rects))
    rects, ref = [rects[k] for k in order], [ref[k] for k in order]
    tiles, sizes = [], []
    X = lambda i: c["x0"] + i * dx
    Y = lambda j: -30 + j * big
    for k, ((a, b, d, e), r) in enumerate(zip(rects, ref)):
        x = X(np.arange(a * r, b * r + 1) / r)
        y = Y(np.arange(d * r, e * r + 1) / r)
        tiles.append(np.meshgrid(x, y))
        sizes.append(((b - a) * r, (e - d) * r))
    con = set()
    n = len(rects)
    for p in range(n):
        for q in range(n):
            a, b = rects[p], rects[q]
            for per in ((False, True) if c["px"] else (False,)):
                if (not per and a[1] == b[0]) or (per and a[1] == nx and b[0] == 0):
                    lo, hi = max(a[2], b[2]), min(a[3], b[3])
                    if lo < hi:
                        con.add(canon(side(p, "E", *sizes[p], (lo - a[2]) * ref[p], (hi - a[2]) * ref[p]),
                                      side(q, "W", *sizes[q], (lo - b[2]) * ref[q], (hi - b[2]) * ref[q])))
            for per in ((False, True) if c["py"] else (False,)):
                if (not per and a[3] == b[2]) or (per and a[3] == c["ny"] and b[2] == 0):
                    lo, hi = max(a[0], b[0]), min(a[1], b[1])
                    if lo < hi:
                        con.add(canon(side(p, "N", *sizes[p], (lo - a[0]) * ref[p], (hi - a[0]) * ref[p]),
                                      side(q, "S", *sizes[q], (lo - b[0]) * ref[q], (hi - b[0]) * ref[q])))
    for k in range(n):
        if c["nest"][k % 9] and min(sizes[k]) > 3:
            u = np.array(c["np"]) % np.array([sizes[k][0] - 2, 50, sizes[k][1] - 2, 50])
            i0 = 1 + int(u[0]); i1 = min(sizes[k][0] - 1, i0 + 1 + int(u[1]) % 4)
            j0 = 1 + int(u[2]); j1 = min(sizes[k][1] - 1, j0 + 1 + int(u[3]) % 4)
            if i1 <= i0 or j1 <= j0:
                continue
            r = c["nest"][k % 9]
            px, py = tiles[k][0][0], tiles[k][1][:, 0]
            x = np.interp(np.arange(i0 * r, i1 * r + 1) / r, np.arange(len(px)), px)
            y = np.interp(np.arange(j0 * r, j1 * r + 1) / r, np.arange(len(py)), py)
            x[::r], y[::r] = px[i0:i1 + 1], py[j0:j1 + 1]
            t = len(tiles)
            tiles.append(np.meshgrid(x, y))
            con.add(canon((k, i0 + 1, i1, j0 + 1, j1), (t, 1, (i1 - i0) * r, 1, (j1 - j0) * r)))
    return tiles, con, (360.0 if c["px"] else None), (c["ny"] * big if c["py"] else None)


def cube(c):
    n = c["n"]
    m = dict(c)
    if c["nestt"] and n > 2:
        m["nests"] = [[c["nestt"], c["r"], 2, n - 1, 2, n - 1]]
    v = C13.model(m)
    # the same point has the same coordinates in all tiles
    tiles, seen = [], {}
    for p in v:
        lon, lat = sph.lonlat(p)
        lon = np.where(lon < -1e-9, lon + 360, np.abs(lon))
        x, y = lon.copy(), lat.copy()
        for k in np.ndindex(x.shape):
            key = tuple(np.round(p[k], 9) + 0.0)
            for d in np.ndindex(3, 3, 3):
                q = tuple(np.round(np.array(key) + (np.array(d) - 1) * 1e-9, 9) + 0.0)
                if q in seen:
                    x[k], y[k] = seen[q]
                    break
            else:
                seen[key] = (x[k], y[k])
        tiles.append((x, y))
    con = set()
    N = 2 * n
    for p in range(6):
        for q in range(p + 1, 6):
            for s, (e, _) in C13.edges(v[p]).items():
                for s2, (e2, _) in C13.edges(v[q]).items():
                    if np.abs(e - e2).max() < 1e-8:
                        con.add(canon(side(p, s, N, N, 0, N), side(q, s2, N, N, 0, N)))
                    elif np.abs(e - e2[::-1]).max() < 1e-8:
                        con.add(canon(side(p, s, N, N, 0, N), side(q, s2, N, N, N, 0)))
    if len(v) > 6:
        con.add(canon((c["nestt"] - 1, 3, 2 * n - 2, 3, 2 * n - 2), (6, 1, v[6].shape[1] - 1, 1, v[6].shape[0] - 1)))
    return tiles, con, None, None


def fold(c):
    nx = 4 * c["q"]
    i = np.arange(nx + 1)
    x, y = np.meshgrid(c["x0"] + 360.0 * i / nx, np.linspace(-60, 60, c["ny"] + 1))
    d = np.abs((i % (nx // 2)) - nx // 4) / (nx // 4)       # 0 at the pole, 1 at the two new poles
    row = np.where(i < nx // 4, c["x0"], np.where(i <= 3 * nx // 4, c["x0"] + 180, c["x0"] + 360))
    lat = 90 - 20 * d
    ok = True
    if c["broken"] == "y":
        lat[1] -= 0.01
        ok = False
    elif c["broken"] == "x":
        row[1] += 0.5
        ok = False
    x = np.vstack([x, row]); y = np.vstack([y, lat])
    con = set()
    ny = y.shape[0] - 1
    if ok:
        con.add(canon((0, 1, nx // 2, ny, ny), (0, nx, nx // 2 + 1, ny, ny)))
    if c["px"]:
        con.add(canon(side(0, "E", nx, ny, 0, ny), side(0, "W", nx, ny, 0, ny)))
    return [(x, y)], con, (360.0 if c["px"] else None), None


def run(c, ctx):
    tiles, con, px, py = {"cut": cut, "cube": cube, "fold": fold}[c["kind"]](c)
    n = len(tiles)
    d = os.path.join(ctx.dir, c["sub"]) if c["sub"] else ctx.dir
    os.makedirs(d, exist_ok=True)
    names = ["%s.tile%d.nc" % (c["files"] or "horizontal_grid", k + 1) for k in range(n)]
    if n == 1 and not c["files"]:
        names = ["horizontal_grid.nc"]
    tn = ["tile%d" % (k + 1) for k in range(n)]
    for f, t, (x, y) in zip(names, tn, tiles):
        grid.hgrid(os.path.join(d, f), x, y, t)
    a = ["--num_tiles", n] * c["rep"] + ["--num_tiles", n, "--dir", (c["sub"] or ".") + ("/" if c["slash"] else "")]
    if c["name"]:
        a += ["--mosaic_name", c["name"]]
    if c["files"]:
        a += ["--tile_file", ",".join(names)]
    if px:
        a += ["--periodx", px]
    if py:
        a += ["--periody", py]
    if c["desc"]:
        a += ["--grid_descriptor", c["desc"]]
    ctx.label(c["kind"])
    ctx.nontrivial(len(con) > 1)
    ctx.ok("make_solo_mosaic", *a)
    name = c["name"] or "solo_mosaic"
    got = ncio.read(ctx.path(name + ".nc"))
    v = got.vars
    if text(v["mosaic"].data)[0] != name or text(v["gridtiles"].data) != tn or text(v["gridfiles"].data) != names:
        raise Violation("mosaic %s, tiles %s, files %s" % (text(v["mosaic"].data), text(v["gridtiles"].data), text(v["gridfiles"].data)))
    loc = text(v["gridlocation"].data)[0]
    if loc != (c["sub"] or ".") + "/":
        raise Violation("grid location %r" % loc)
    found = []
    if "contacts" in v:
        for s, k in zip(text(v["contacts"].data), text(v["contact_index"].data)):
            m = re.fullmatch(r"(.*):(tile\d+)::(.*):(tile\d+)", s)
            w = re.fullmatch(r"(\d+):(\d+),(\d+):(\d+)::(\d+):(\d+),(\d+):(\d+)", k)
            if not m or not w or m[1] != name or m[3] != name:
                raise Violation("contact %r %r" % (s, k))
            q = [int(g) for g in w.groups()]
            found.append(canon((tn.index(m[2]), *q[:4]), (tn.index(m[4]), *q[4:])))
    elif con:
        raise Violation("no contacts, expected %s" % sorted(con))
    if len(set(found)) != len(found):
        raise Violation("a contact is listed twice: %s" % sorted(found))
    if set(found) != con:
        raise Violation("contacts not expected: %s, not found: %s (tile from 0, i:i, j:j)" % (sorted(set(found) - con), sorted(con - set(found))))
