"""cp_river_vars derives every river variable from the network; rmv_parallel_rivers keeps it complete."""
import functools, os, re, shutil
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio, cs
from vlib.ncio import DS

ID = "C34"
QUICK, THOROUGH = 1500, 40000
RULE = ("A generated drainage network (every cell to a lower neighbour, an outlet, or a cell without network) on a cyclic longitude-latitude grid "
        "or the six tiles of a cubed sphere, with generated areas, land fractions, storage type, fill values and coordinate names, goes through cp_river_vars "
        "(and rmv_parallel_rivers and cp_river_vars again); every output is compared with a walk over the network; "
        "non-trivial = a river of at least 3 cells and, on six tiles, one that crosses to another tile.")
ASSUMPTIONS = ["networks have no cycles and no cell drains over a pole or a cube corner", "cells without network have no area",
               "rivers that cross each other are reported when there are any, the count is not compared",
               "rmv_parallel_rivers: which neighbour it chooses is not prescribed, only that the network stays complete; add_ocean_const is F, as in make_simple_hydrog"]
DIRS = {(-1, -1): 8, (0, -1): 4, (1, -1): 2, (-1, 0): 16, (1, 0): 1, (-1, 1): 32, (0, 1): 64, (1, 1): 128}
BACK = {v: k for k, v in DIRS.items()}
MISS = -9999.0


@st.composite
def cases(draw):
    c = dict(nt=draw(st.sampled_from([1, 1, 6])), seed=draw(st.integers(0, 2**31 - 1)))
    if c["nt"] == 1:
        c["nx"], c["ny"] = draw(st.integers(4, 14)), draw(st.integers(3, 9))
        c["names"] = draw(st.sampled_from([("lon", "lat"), ("grid_x", "grid_y")]))
        c["edges"] = draw(st.sampled_from([0, 0, 0, 1]))
    else:
        c["nx"] = c["ny"] = draw(st.integers(3, 7))
        c["names"] = draw(st.sampled_from([("lon", "lat"), ("grid_x", "grid_y")]))
        c["edges"] = 0
    c["land"] = draw(st.sampled_from([0.15, 0.4, 0.6, 0.8, 0.95, 1.0]))
    c["order"] = draw(st.sampled_from(["smooth", "smooth", "random", "index"]))
    c["outlets"] = draw(st.sampled_from([0.0, 0.0, 0.05, 0.3, 1.0]))
    c["tomiss"] = draw(st.sampled_from([False, False, True]))
    c["area"] = draw(st.sampled_from(["land_area", "cellarea", "both"]))
    c["scale"] = draw(st.booleans())
    c["type"] = draw(st.sampled_from(["double", "double", "float"]))
    c["fill"] = draw(st.sampled_from([-9999.0, -9999.0, 1e20, -1.0, None]))
    c["fmt"] = draw(st.sampled_from(ncio.FORMATS))
    c["rmv"] = draw(st.sampled_from([False, True]))
    c["lakes"] = draw(st.sampled_from([False] * 7 + [True]))
    c["thresh"] = draw(st.sampled_from([0.0, 1.0, 2.0, 2.5]))
    c["fault2"] = draw(st.sampled_from([None] * 6 + ["missing", "junk", "novar", "fsize"]))
    c["fault"] = draw(st.sampled_from([None] * 8 + ["missing", "junk", "novar", "fsize"]))
    return c


def strategy(tier):
    return cases()


@functools.lru_cache(64)
def cube(n):
    t, _ = cs.cube(n)
    lon = np.array([x[1::2, 1::2] for x, y in t])
    lat = np.array([y[1::2, 1::2] for x, y in t])
    return lon, lat, cs.halo_index(t)


def wrap(nx, ny):
    h = np.full((1, ny + 2, nx + 2), -1)
    h[0, 1:-1, 1:-1] = np.arange(nx * ny).reshape(ny, nx)
    h[0, :, 0], h[0, :, -1] = h[0, :, -2], h[0, :, 1]
    return h


def network(c, rng, h, lon, lat):
    nt, ny, nx = c["nt"], c["ny"], c["nx"]
    N = nt * ny * nx
    p = np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1).reshape(-1, 3)
    if c["order"] == "smooth":
        o = p @ rng.normal(size=3) * 0.5 + rng.normal(size=N) * rng.choice([0, 0.02, 0.2])
        for _ in range(3):
            o = o + np.exp(-8 * (1 - p @ p[rng.integers(N)]))
    elif c["order"] == "index":
        o = np.arange(N) * rng.choice([-1.0, 1.0])
    else:
        o = rng.random(N)
    land = rng.random(N) < c["land"]
    if c["seed"] % 2:
        land &= p @ p[rng.integers(N)] > rng.uniform(-1, 0.3)
    to = np.full(N, MISS)
    for k in np.flatnonzero(land):
        t, r = divmod(int(k), ny * nx)
        j, i = divmod(r, nx)
        nb, sea = [], []
        for (di, dj), d in DIRS.items():
            q = h[t, j + 1 + dj, i + 1 + di]
            if q < 0 or q == k:
                continue
            if land[q]:
                if (o[q], q) < (o[k], k):
                    nb.append((o[q], d))
            else:
                sea.append(d)
        nb.sort()
        if rng.random() < c["outlets"] and not (c["tomiss"] and sea):
            to[k] = 0
        elif c["tomiss"] and sea and (not nb or rng.random() < 0.5):
            to[k] = rng.choice(sea)
        elif nb:
            to[k] = nb[0][1] if rng.random() < 0.7 else nb[rng.integers(len(nb))][1]
        else:
            to[k] = 0
    return to


def down(h, to):
    """flat index of the cell each cell drains to; itself for an outlet, -1 without network"""
    nt, ny, nx = h.shape[0], h.shape[1] - 2, h.shape[2] - 2
    d = np.full(to.size, -1)
    for k in np.flatnonzero(to != MISS):
        if to[k] == 0:
            d[k] = k
            continue
        if to[k] not in BACK:
            raise Violation("tocell holds %r" % to[k])
        t, r = divmod(int(k), ny * nx)
        j, i = divmod(r, nx)
        di, dj = BACK[to[k]]
        d[k] = h[t, j + 1 + dj, i + 1 + di]
        if d[k] < 0:
            raise Violation("the cell %d drains out of the grid (%g)" % (k, to[k]))
    return d


def crossings(h, to):
    """do two rivers cross: both diagonals around one corner of four cells used"""
    for t in range(h.shape[0]):
        for j in range(h.shape[1] - 1):
            for i in range(h.shape[2] - 1):
                q = [h[t, j, i], h[t, j, i + 1], h[t, j + 1, i + 1], h[t, j + 1, i]]
                if min(q) < 0 or len(set(q)) < 4:
                    continue
                yield q


def model(to, d, w, lf, p):
    """derived variables; the network is completed by outlets where it ends in a cell without one"""
    N = to.size
    to, d, lf = to.copy(), d.copy(), lf.copy()
    for k in np.flatnonzero(d >= 0):
        q = d[k]
        if to[q] == MISS:
            to[q], d[q] = 0.0, q
            if lf[q] == MISS:
                lf[q] = 0.0
    m = dict(travel=np.full(N, MISS), rivlen=np.full(N, MISS), subA=np.full(N, MISS), celllength=np.full(N, MISS), internal=np.full(N, MISS))
    out = np.full(N, -1)
    on = np.flatnonzero(to != MISS)
    m["subA"][on] = 0
    step = np.zeros(N)
    a = 2 * np.arcsin(np.clip(np.linalg.norm(p - p[np.maximum(d, 0)], axis=1) / 2, 0, 1)) * 6.371e6
    step[on] = np.where(d[on] == on, 0.0, a[on])
    for k in on:
        q, n, s = k, 0, 0.0
        while True:
            m["subA"][q] += w[k]
            if to[q] == 0:
                break
            s += step[q]
            n += 1
            q = d[q]
            if n > N:
                raise Violation("the network of the output has a cycle at cell %d" % k)
        out[k] = q
        m["travel"][k], m["rivlen"][k], m["celllength"][k] = n, s, step[k]
        m["internal"][k] = 1.0 if lf[q] >= 1 else 0.0
    m["tocell"], m["land_frac"] = to, lf
    return m, out, d


def read(wd, nt, name="river_network.tile%d.nc"):
    o = [ncio.read(os.path.join(wd, name % (t + 1))) for t in range(nt)]
    return {v: np.concatenate([np.asarray(q.vars[v].data, float).ravel() for q in o]) for v in o[0].vars if len(o[0].vars[v].dims) == 2}, o


def compare(what, got, m, out, w, skip=()):
    for v in m:
        if v in skip:
            continue
        if v not in got:
            raise Violation("%s: no variable %s" % (what, v))
        g, e = got[v], m[v]
        tol = 0 if v in ("travel", "tocell", "internal", "land_frac") else 1e-9 * np.abs(e) + (1.0 if v == "rivlen" else 0.2 if v == "celllength" else 1e-6)
        tol = np.where(e == MISS, 0, tol)
        bad = ~(np.abs(g - e) <= tol)
        if bad.any():
            k = int(np.flatnonzero(bad)[0])
            raise Violation("%s: %s of cell %d is %.12g, expected %.12g (%d cells)" % (what, v, k, g[k], e[k], bad.sum()))
    b = got["basin"]
    if ((b == MISS) != (out < 0)).any():
        raise Violation("%s: basin is missing in other cells than those without network" % what)
    ids = {}
    for k in np.flatnonzero(out >= 0):
        if ids.setdefault(b[k], out[k]) != out[k]:
            raise Violation("%s: cells of two outlets are in basin %g" % (what, b[k]))
    if len(set(ids.values())) != len(ids):
        raise Violation("%s: one outlet has two basins" % what)
    if sorted(ids) != list(range(1, len(ids) + 1)):
        raise Violation("%s: the basins are not numbered from 1 to %d: %s" % (what, len(ids), sorted(ids)[:20]))
    ar = [w[out == ids[n]].sum() for n in sorted(ids)]
    for x, y in zip(ar, ar[1:]):
        if y > x * (1 + 1e-9) + 1e-6:
            raise Violation("%s: basins are not in the order of their area: %s" % (what, ar))


def run(c, ctx):
    rng = np.random.default_rng(c["seed"])
    nt, ny, nx = c["nt"], c["ny"], c["nx"]
    N = nt * ny * nx
    wd = ctx.path("w")
    os.makedirs(wd)
    if nt == 1:
        full = rng.random() < 0.5
        x0 = rng.choice([0.0, -180.0, 20.0])
        lx = x0 + (np.arange(nx) + 0.5) * (360.0 / nx)
        yb = np.linspace(-90, 90, ny + 1) if full else np.linspace(-60, 75, ny + 1)
        ly = 0.5 * (yb[1:] + yb[:-1])
        lon, lat = [q[None] for q in np.meshgrid(lx, ly)]
        h = wrap(nx, ny)
    else:
        lon, lat, h = cube(nx)
        lx, ly = np.arange(1.0, nx + 1), np.arange(1.0, ny + 1)
    if c["type"] == "float":
        lon, lat = lon.astype("f4").astype(float), lat.astype("f4").astype(float)
        lx, ly = lx.astype("f4").astype(float), ly.astype("f4").astype(float)
    D = np.pi / 180
    to = network(c, rng, h, lon * D, lat * D)
    p = np.stack([np.cos(lat * D) * np.cos(lon * D), np.cos(lat * D) * np.sin(lon * D), np.sin(lat * D)], -1).reshape(-1, 3)
    on = to != MISS
    if not on.any():
        return
    tot = rng.uniform(5.2e14, 9e14) if c["scale"] else rng.uniform(1e12, 3e14)
    a = np.where(on, rng.uniform(0.2, 1.8, N), 0.0)
    a = (a / a.sum() * tot).astype("f4").astype(float)
    lf = np.where(on, 1.0, 0.0)
    part = on & ((to == 0) & (rng.random(N) < 0.7) | (rng.random(N) < 0.1))
    lf[part] = rng.uniform(0.1, 0.95, part.sum()).astype("f4")
    scale = a.sum() / 1e6 >= 510064460.0
    w = a * lf if scale else a
    fill = c["fill"]
    f0 = 1e20 if fill is None else fill
    f0 = float(np.float32(f0)) if c["type"] == "float" and fill is not None else f0
    ff = f0 if fill is not None or c["type"] == "double" else None   # without an attribute 1e20 is exact in double only
    lfm = lf.copy()
    lfmiss = (~on) & (rng.random(N) < 0.5) & (ff is not None)
    lfm[lfmiss] = MISS
    amiss = (~on) & (rng.random(N) < 0.5) & (ff is not None)
    if ff is None and not on.all():
        ff = f0 = -1.0
        fill = -1.0
    names = []
    for t in range(nt):
        s = slice(t * ny * nx, (t + 1) * ny * nx)
        q = DS()
        X, Y = c["names"]
        if nt == 6:
            X, Y = "grid_x", "grid_y"
        q.add_dim(X, nx)
        q.add_dim(Y, ny)
        q.add(X, c["type"], (X,), lx)
        q.add(Y, c["type"], (Y,), ly)
        if c["edges"]:
            q.add_dim("xb", nx + 1)
            q.add_dim("yb", ny + 1)
            q.add("lonb" if X == "lon" else "grid_xb", "double", ("xb",), x0 + np.arange(nx + 1) * (360.0 / nx))
            q.add("latb" if X == "lon" else "grid_yb", "double", ("yb",), yb)
        if nt == 6 or c["seed"] % 3 == 0:
            q.add("x", c["type"], (Y, X), lon[t])
            q.add("y", c["type"], (Y, X), lat[t])
        at = {} if fill is None else {"missing_value": np.dtype("f4" if c["type"] == "float" else "f8").type(f0)}
        v = dict(tocell=np.where(on, to, f0)[s], land_frac=np.where(lfmiss, f0, lf)[s])
        if c["area"] != "cellarea":
            v["land_area"] = np.where(amiss, f0, a)[s]
        if c["area"] != "land_area":
            v["cellarea"] = (np.where(amiss, f0, a) if c["area"] == "cellarea" else a * 0.5 + 3)[s]
        ks = list(v)
        rng.shuffle(ks)
        for k in ks:
            q.add(k, c["type"], (Y, X), v[k].reshape(ny, nx), units="m2", **at)
        f = "in.tile%d.nc" % (t + 1)
        q.write(os.path.join(wd, f), fmt=c["fmt"])
        names.append(f)
    stdin = "%d\n%s\n" % (nt, "\n".join(names))
    ctx.label("%d tiles" % nt, "fault %s" % c["fault"])
    if c["fault"]:
        k = c["seed"] % nt
        fp = os.path.join(wd, names[k])
        if c["fault"] == "missing":
            os.unlink(fp)
        elif c["fault"] == "junk":
            open(fp, "wb").write(b"not a netCDF file\n" * 40)
        elif c["fault"] == "novar":
            v = ["tocell", "land_frac", "area"][c["seed"] % 3]
            d2 = ncio.read(fp)
            d2 = strip(d2, [v] if v != "area" else ["land_area", "cellarea"])
            d2.write(fp, fmt=c["fmt"])
        if c["fault"] == "fsize":
            lim = int(rng.integers(0, 8 * nx * ny * 8))
            r = ctx.run("bash", "-c", "trap '' XFSZ; exec prlimit --fsize=%d \"$@\"" % lim, "x", ctx.tool("cp_river_vars"), cwd=wd, stdin=stdin, raw=True)
        else:
            r = ctx.run("cp_river_vars", cwd=wd, stdin=stdin)
        ctx.nontrivial(True)
        if r.rc == 0:
            raise Violation("cp_river_vars exits 0 although %s" % {"missing": "an input is missing", "junk": "an input is not netCDF", "novar": "a variable is missing", "fsize": "its output can not be written"}[c["fault"]])
        return
    before = {f: open(os.path.join(wd, f), "rb").read() for f in names}
    r = ctx.run("cp_river_vars", cwd=wd, stdin=stdin)
    if r.rc:
        raise Violation("cp_river_vars fails: %s" % r.brief())
    for f in names:
        if open(os.path.join(wd, f), "rb").read() != before[f]:
            raise Violation("cp_river_vars changes its input %s" % f)
    d = down(h, to)
    m, out, d = model(to, d, w, lfm, p)
    m["cellarea"] = a
    got, raw = read(wd, nt)
    compare("cp_river_vars", got, m, out, w)
    for v, e in (("x", lon), ("y", lat)):
        if np.abs(got[v] - e.ravel()).max() > 0:
            raise Violation("cp_river_vars: %s is not the coordinate of the input" % v)
    for t in range(nt):
        if raw[t].vars["grid_x"].data.tolist() != lx.tolist() or raw[t].vars["grid_y"].data.tolist() != ly.tolist():
            raise Violation("cp_river_vars: the axes differ from those of the input")
        if float(raw[t].vars["tocell"].attrs.get("missing_value", 0)) != MISS:
            raise Violation("cp_river_vars: missing_value is not %g" % MISS)
    g = re.search(r"rivers crossing=\s*(\d+)", r.out)
    cross = any((d[q[0]] == q[2] or d[q[2]] == q[0]) and (d[q[1]] == q[3] or d[q[3]] == q[1]) for q in crossings(h, to))
    if not g or (int(g.group(1)) > 0) != cross:
        raise Violation("cp_river_vars reports %s crossing rivers, there are %s" % (g and g.group(1), "some" if cross else "none"))
    til = np.arange(N) // (ny * nx)
    far = nt == 1 or (on & (til[np.maximum(d, 0)] != til)).any()
    ctx.nontrivial(m["travel"].max() >= 2 and far)
    if c["lakes"]:
        lakes(ctx, c, rng, wd, got, a, lon.ravel(), lat.ravel())
        return
    if not c["rmv"] or (scale and (w[on] <= 0).any()):
        return
    for t in range(nt):
        os.rename(os.path.join(wd, "river_network.tile%d.nc" % (t + 1)), os.path.join(wd, "p%d.nc" % (t + 1)))
    stdin = "%d\n%s\nF\n" % (nt, "\n".join("p%d.nc" % (t + 1) for t in range(nt)))
    if faulty(ctx, c, rng, wd, "rmv_parallel_rivers", stdin, ["p%d.nc" % (t + 1) for t in range(nt)], ["subA", "basin", "tocell", "land_frac", "cellarea"]):
        return
    r = ctx.run("rmv_parallel_rivers", cwd=wd, stdin=stdin)
    if r.rc:
        raise Violation("rmv_parallel_rivers fails: %s" % r.brief())
    g2, _ = read(wd, nt)
    t2 = g2["tocell"]
    end = (m["tocell"] == 0)
    river = (m["tocell"] != MISS) & ~end
    if (t2[end & (w > 0)] != 0).any() or (t2[river] == 0).any():
        raise Violation("rmv_parallel_rivers moves an outlet")
    if (t2[river] == MISS).any() or (t2[m["tocell"] == MISS] != MISS).any():
        raise Violation("rmv_parallel_rivers changes which cells have a river")
    m2, out2, d2 = model(t2, down(h, t2), w, m["land_frac"], p)
    ctx.label("rmv changed" if (t2 != m["tocell"]).any() else "rmv same")
    for v, e in (("cellarea", a), ("land_frac", m["land_frac"]), ("x", lon.ravel()), ("y", lat.ravel())):
        if (g2[v] != e).any():
            raise Violation("rmv_parallel_rivers: %s is not kept" % v)
    if abs(m2["subA"][(m2["tocell"] == 0)].sum() - w.sum()) > 1e-9 * w.sum():
        raise Violation("rmv_parallel_rivers: the outlets drain %g of %g m2" % (m2["subA"][m2["tocell"] == 0].sum(), w.sum()))
    if "FIX: rivers cross" not in r.out and "too many iterations" not in r.out:
        del m2["rivlen"]
        compare("rmv_parallel_rivers", g2, m2, out2, w)
        # settled: every river follows the neighbour of its own basin with the largest area
        sub = m2["subA"]
        for k in np.flatnonzero(river):
            t, rr = divmod(int(k), ny * nx)
            j, i = divmod(rr, nx)
            nb = [h[t, j + 1 + dj, i + 1 + di] for di, dj in DIRS]
            best = max(sub[q] for q in nb if q >= 0 and out2[q] == out2[k])
            if sub[d2[k]] < best * (1 - 1e-9):
                raise Violation("rmv_parallel_rivers: cell %d drains to a cell of %g m2, its neighbour in the same basin has %g" % (k, sub[d2[k]], best))


def lakes(ctx, c, rng, wd, got, area, lon, lat):
    """cr_lake_files: lake fraction = water bodies of the 1/8 degree map at the cell"""
    nt = c["nt"]
    NX, NY = 2880, 1440
    gx, gy = -180 + (np.arange(NX) + 0.5) / 8, 90 - (np.arange(NY) + 0.5) / 8
    q = DS()
    q.add_dim("lat", NY)
    q.add_dim("lon", NX)
    q.add("lat", "double", ("lat",), gy)
    q.add("lon", "double", ("lon",), gx)
    e = {}
    sc = float(rng.choice([0.001, 0.0005]))
    for v in ("WaterBod", "PWetland"):
        k1, k2, p1, p2 = rng.integers(1, 9), rng.integers(1, 9), rng.uniform(0, 6, 2), rng.uniform(0, 6, 2)
        f = 0.5 + 0.5 * np.sin(k1 * gx * np.pi / 180 + p1[0])[None] * np.sin(k2 * gy * np.pi / 90 + p2[0])[:, None]
        f = np.rint(np.clip(f - rng.choice([0.0, 0.4]), 0, 1) / sc).astype("i4")
        q.add(v, rng.choice(["int", "short"]), ("lat", "lon"), f, long_name=v, scale_factor=sc)
        fi, fj = (lon - gx[0]) % 360 * 8, (gy[0] - lat) * 8
        i, j = np.floor(fi).astype(int), np.clip(np.floor(fj).astype(int), 0, NY - 2)
        s, t = fi - i, fj - j
        i, i1 = i % NX, (i + 1) % NX
        e[v] = sc * ((1 - t) * ((1 - s) * f[j, i] + s * f[j, i1]) + t * ((1 - s) * f[j + 1, i] + s * f[j + 1, i1]))
    if c["seed"] % 5 == 0:     # the same map from the south
        q.vars["lat"].data = gy[::-1]
        for v in ("WaterBod", "PWetland"):
            q.vars[v].data = q.vars[v].data[::-1]
    if c["seed"] % 7 == 0:     # the same map from Greenwich
        q.vars["lon"].data = (np.arange(NX) + 0.5) / 8
        for v in ("WaterBod", "PWetland"):
            q.vars[v].data = np.roll(q.vars[v].data, NX // 2, axis=1)
    q.write(os.path.join(wd, "glcc.nc"))
    open(os.path.join(wd, "input.nml"), "w").close()
    stdin = "%d\n%s\nglcc.nc\n%g\n" % (nt, "\n".join("river_network.tile%d.nc" % (t + 1) for t in range(nt)), c["thresh"])
    if faulty(ctx, c, rng, wd, "cr_lake_files", stdin, ["river_network.tile%d.nc" % (t + 1) for t in range(nt)] + ["glcc.nc"],
              ["travel", "tocell", "land_frac", "cellarea", "WaterBod", "PWetland"]):
        return
    r = ctx.run("cr_lake_files", cwd=wd, stdin=stdin)
    if r.rc:
        raise Violation("cr_lake_files fails: %s" % r.brief())
    ctx.label("lakes")
    g, _ = read(wd, nt, "lake_frac.tile%d.nc")
    lf, tr = got["land_frac"], got["travel"]
    W, P = e["WaterBod"].copy(), e["PWetland"].copy()
    part = (lf > 0) & (lf < 1)
    W[part] = P[part] = 0
    lo = lon % 360
    cold = (lat < -60) | (lat > 70) | (lat > 58) & (lo > 302) & (lo < 348)
    W[cold | (W > 0.1) & (tr <= c["thresh"])] = 0
    m = dict(lake_frac=W, WaterBod=W, PWetland=P, whole_lake_area=W * area, lake_depth_sill=np.full(lf.size, 2.0), lake_tau=np.zeros(lf.size),
             connected_to_next=np.zeros(lf.size), max_slope_to_next=np.full(lf.size, 0.1))
    sure = (np.abs(e["WaterBod"] - 0.1) > 1e-5) & (np.abs(lat) < 89.9) & ((tr != MISS) | (lf == 0)) & ~((lat > 58) & (lon < 0))
    sure &= (np.abs(lat - 70) > 1e-9) & (np.abs(lat + 60) > 1e-9) & (np.abs(lat - 58) > 1e-9) & (np.abs(lo - 302) > 1e-9) & (np.abs(lo - 348) > 1e-9)
    for v, x in m.items():
        x = np.where(lf == 0, MISS, x)
        tol = (1e-6 * area if v == "whole_lake_area" else 1e-6)
        bad = sure & ~(np.abs(g[v] - x) <= np.where(x == MISS, 0, tol))
        if bad.any():
            k = int(np.flatnonzero(bad)[0])
            raise Violation("cr_lake_files: %s of cell %d (%g E %g N, land %g, travel %g) is %.9g, expected %.9g" % (v, k, lon[k], lat[k], lf[k], tr[k], g[v][k], x[k]))


def faulty(ctx, c, rng, wd, tool, stdin, files, names):
    if not c["fault2"]:
        return False
    fp = os.path.join(wd, files[int(rng.integers(len(files)))])
    if c["fault2"] == "missing":
        os.unlink(fp)
    elif c["fault2"] == "junk":
        open(fp, "wb").write(b"not a netCDF file\n" * 40)
    elif c["fault2"] == "novar":
        ds = ncio.read(fp)
        have = [n for n in names if n in ds.vars]
        strip(ds, [have[int(rng.integers(len(have)))]]).write(fp)
    if c["fault2"] == "fsize":
        lim = int(rng.integers(0, 8 * c["nx"] * c["ny"] * 8))
        r = ctx.run("bash", "-c", "trap '' XFSZ; exec prlimit --fsize=%d \"$@\"" % lim, "x", ctx.tool(tool), cwd=wd, stdin=stdin, raw=True)
    else:
        r = ctx.run(tool, cwd=wd, stdin=stdin)
    if r.rc == 0:
        raise Violation("%s exits 0 although %s" % (tool, {"missing": "an input is missing", "junk": "an input is not netCDF", "novar": "a variable is missing", "fsize": "its output can not be written"}[c["fault2"]]))
    ctx.label(tool + " " + c["fault2"])
    return True


def strip(ds, names):
    for k in names:
        ds.vars.pop(k, None)
    return ds
