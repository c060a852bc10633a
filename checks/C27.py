"""make_land_domain: the land domain file lists every land point of every face with its tiles."""
import copy
import os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import grid, cs, freg, ncio
from vlib.ncio import DS

ID = "C27"
QUICK, THOROUGH = 800, 30000
RULE = ("Generated land mosaics of one to twelve faces, exchange grids split over files with all naming rules of make_coupler_mosaic, and land restarts with one to several tiles per land cell, or with an inconsistency; "
        "the land domain file is compared with the land cells of the exchange grids and the tile counts of the restarts, an inconsistent restart must be refused; "
        "non-trivial = two faces or more with land, or an inconsistent restart.")
ASSUMPTIONS = ["all faces have the same size, as the tool demands", "the land tiles are called tile1, tile2, ..."]


def strategy(tier):
    @st.composite
    def s(draw):
        c = dict(seed=draw(st.integers(0, 2 ** 20)), nf=draw(st.sampled_from([1, 1, 2, 6, 6, 12])), nx=draw(st.integers(1, 6)), ny=draw(st.integers(1, 6)))
        c["fill"] = draw(st.sampled_from([0.1, 0.4, 0.8, 1.0]))
        c["bad"] = draw(st.sampled_from([None, None, None, None, "mask", "tile", "neg", "size"]))
        c["names"] = draw(st.sampled_from([["atmos_mosaic", "land_mosaic"], ["C12_mosaic", "C12_mosaic"], ["a", "b"], ["xland", "land"], ["land", "xland"]]))
        c["cross"] = draw(st.booleans())
        c["same"] = draw(st.booleans())
        c["sub"] = draw(st.booleans())
        c["out"] = draw(st.sampled_from([None, "dom.nc", "domain"]))
        c["ext"] = draw(st.booleans())
        c["long"] = draw(st.integers(0, 7)) == 0
        return c
    return s()


def run(c, ctx):
    c = copy.deepcopy(c)
    rng = np.random.default_rng(c["seed"])
    nf, nx, ny = c["nf"], c["nx"], c["ny"]
    wd = ctx.path("work")
    d = ctx.path("grids") if c["sub"] else wd
    for p in {wd, d}:
        os.makedirs(p)
    an, ln = c["names"]
    tn = ["tile%d" % (t + 1) for t in range(nf)]
    gf = ["%s_grid.%s.nc" % (ln, t) for t in tn]
    for k, f in enumerate(gf):
        odd = c["bad"] == "size" and k == nf - 1 > 0
        x, y = np.meshgrid(np.linspace(0, 10, 2 * (nx + (odd and c["seed"] % 2)) + 1) + 20 * k, np.linspace(-10, 10, 2 * (ny + (odd and 1 - c["seed"] % 2)) + 1))
        grid.hgrid(os.path.join(d, f), x, y, tn[k])
    grid.mosaic(os.path.join(d, ln + ".nc"), ln, gf, tn)
    mask = rng.random((nf, ny * nx)) < c["fill"] * rng.integers(0, 2, (nf, 1)) if c["fill"] < 1 and c["seed"] % 2 else rng.random((nf, ny * nx)) < c["fill"]
    if not mask.any():
        mask[0, 0] = True
    count = np.where(mask, rng.integers(1, 5, mask.shape), 0)
    have = mask.copy()
    bad = c["bad"]
    if bad == "size" and nf == 1:
        return ctx.nontrivial(False)
    if bad == "mask":      # land in the exchange grid, none in the restart
        f = rng.integers(nf); k = rng.integers(nx * ny)
        have[f, k], mask[f, k], count[f, k] = True, True, 0
    elif bad == "tile":
        f = rng.integers(nf); k = rng.integers(nx * ny)
        have[f, k], mask[f, k], count[f, k] = False, False, 1
        if not have.any():
            return ctx.nontrivial(False)
    files = []
    for f in range(nf):
        parts = [[], []]
        for k in np.flatnonzero(have[f]):
            for m in ((0, 1) if rng.random() < 0.3 else (int(rng.integers(2)),)):
                parts[m].append((k % nx + 1, k // nx + 1))
        if not c["cross"]:
            parts = [parts[0] + parts[1]]
        for m, p in enumerate(parts):
            if not p:
                continue
            g = ("atm_%s_tile%dXlnd_%s_tile%d.nc" if an == ln and c["same"] else "%s_tile%dX%s_tile%d.nc") % (an, (f + m) % nf + 1 if nf > 1 else m + 1, ln, f + 1)
            q = DS()
            q.add_dim("string", 255); q.add_dim("ncells", len(p)); q.add_dim("two", 2)
            q.add("contact", "char", ("string",), grid.chars("%s:tile1::%s:tile%d" % (an, ln, f + 1)))
            q.add("tile1_cell", "int", ("ncells", "two"), rng.integers(1, 4, (len(p), 2)))
            q.add("tile2_cell", "int", ("ncells", "two"), np.array(p))
            q.add("xgrid_area", "double", ("ncells",), rng.choice([1e-3, 1e5, 1e10], len(p)), units="m2")
            q.write(os.path.join(d, g))
            files.append(g)
    rng.shuffle(files)
    q = DS()
    q.add_dim("string", 255); q.add_dim("nfile_aXl", len(files))
    q.add("lnd_mosaic_file", "char", ("string",), grid.chars(ln + ".nc"))
    q.add("lnd_mosaic", "char", ("string",), grid.chars(ln))
    q.add("aXl_file", "char", ("nfile_aXl", "string"), np.array([grid.chars(f) for f in files]))
    q.write(os.path.join(d, "grid_spec.nc"))
    base = ctx.path("land.res")
    for f in range(nf):
        idx = [k + m * nx * ny for k in range(nx * ny) for m in rng.permutation(6)[:count[f, k]]]
        rng.shuffle(idx)
        if bad == "neg" and f == c["seed"] % nf:
            idx = [-5] + idx
        q = DS()
        q.add_dim("tile_index", max(len(idx), 0) or None)
        q.add("tile_index", "int", ("tile_index",), np.array(idx, "i4"), compress="tile lat lon")
        q.write(base + (".nc" if nf == 1 else ".tile%d.nc" % (f + 1)))
    args = ["--grid_file", os.path.join(d, "grid_spec.nc"), "--land_restart", base + (".nc" if nf == 1 and c["ext"] else "")]
    if c["out"]:
        args += ["--output_file", c["out"]]
    if c["long"]:
        args += ["--output_file", c["out"] or "land_domain.nc"] * 50
    out = os.path.join(wd, c["out"] or "land_domain.nc")
    if not out.endswith(".nc"):
        out += ".nc"
    if c["seed"] % 3 == 0:
        args = [a for k in range(len(args) - 2, -1, -2) for a in args[k:k + 2]]
    ctx.label("%s %s" % (bad, nf))
    if bad:
        r = ctx.run("make_land_domain", *args, cwd=wd)
        ctx.nontrivial(True)
        if r.rc == 0:
            raise Violation("an inconsistent land restart (%s) is accepted" % bad)
        if r.rc < 0:
            raise Violation("make_land_domain dies with signal %d on an inconsistent restart: %s" % (-r.rc, r.err[-200:]))
        if os.path.exists(out):
            raise Violation("a land domain file is written for an inconsistent restart")
        return
    ctx.ok("make_land_domain", *args, cwd=wd)
    o = ncio.read(out)
    got = {k: o.vars[k].data.tolist() for k in ("nland_face", "grid_index", "grid_ntile")}
    want = dict(nland_face=mask.sum(1).tolist(), grid_index=[int(k) for f in range(nf) for k in np.flatnonzero(mask[f])],
                grid_ntile=[int(count[f, k]) for f in range(nf) for k in np.flatnonzero(mask[f])])
    for k in want:
        if got[k] != want[k]:
            raise Violation("%s is %s, expected %s" % (k, got[k][:60], want[k][:60]))
    ctx.nontrivial((mask.any(1)).sum() > 1 or nf == 1 and mask.sum() > 1)
