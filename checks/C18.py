"""fregrid: histories of runs sharing a remap file, serial and parallel, give what one plain serial run gives."""
import copy
import os
import shutil
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio
from checks import C16
from checks import C17

ID = "C18"
QUICK, THOROUGH = 260, 8000
SHRINK_S = 40
RULE = ("Generated source/target grids, fields and options (those of C16 and C17) with a generated history of runs: saving weights only, remapping with the remap file present or absent, "
        "with none, one or all tiles' weight files, with fewer fields, with --check_conserve, by fregrid or by fregrid_parallel on 1-5 processes; every output file of every run is compared with "
        "that of one serial run without remap file, and the weight files of all writers with each other; non-trivial = some run read weights or used several processes.")
ASSUMPTIONS = ["values to 1e-9 of the range of the field, integers to one unit (weights pass through a division and multiplication by the area of the globe)"]


@st.composite
def cases(draw):
    ll = draw(st.booleans())
    c = {"base": draw(C16.cases() if ll else C17.cases()), "ll": ll, "hist": []}
    for _ in range(draw(st.integers(1, 4))):
        op = draw(st.sampled_from(["run", "run", "run", "save", "drop"]))
        s = {"op": op, "np": draw(st.sampled_from([0, 0, 1, 2, 2, 3, 4, 5])), "remap": draw(st.sampled_from([True, True, False])), "nc": draw(st.booleans()),
             "cc": draw(st.sampled_from([False, False, True])), "sub": draw(st.sampled_from([False, False, True])), "k": draw(st.integers(0, 5))}
        c["hist"].append(s)
    return c


def strategy(tier):
    return cases()


class Captured(Exception):
    pass


class Capture:
    """stands for the context of C17: takes the command line it is about to run"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.args = None

    def ok(self, tool, *a, **k):
        self.args = list(a)
        raise Captured()

    def nontrivial(self, x):
        pass

    def __getattr__(self, k):
        return getattr(self.ctx, k)


def prepare(c, ctx):
    b = copy.deepcopy(c["base"])
    if c["ll"]:
        live = C16.fixup(b)
        return C16.setup(b, ctx)[0], [f["name"] for f in live]
    p = Capture(ctx)
    try:
        C17.run(b, p)
    except Captured:
        pass
    return (p.args, [f["name"] for f in b["fields"]]) if p.args else (None, None)


def same(a, b, name, exact=False):
    if a.data.shape != b.data.shape or a.dtype != b.dtype:
        raise Violation("%s: %s %s instead of %s %s" % (name, b.dtype, b.data.shape, a.dtype, a.data.shape))
    if a.dtype == "char":
        if not np.array_equal(a.data, b.data):
            raise Violation("%s differs" % name)
        return
    x, y = a.data.astype(float), b.data.astype(float)
    bx, by = np.abs(x) > 1e18, np.abs(y) > 1e18
    for k in ("missing_value", "_FillValue"):
        if k in a.attrs:
            m = float(np.ravel(a.attrs[k])[0])
            bx, by = bx | (x == m), by | (y == m)
    if not np.array_equal(bx, by):
        k = tuple(np.argwhere(bx != by)[0])
        raise Violation("%s%s is %r instead of %r" % (name, list(map(int, k)), y[k], x[k]))
    if not bx.all():
        r = np.abs(x[~bx]).max()
        tol = 0 if exact else (1.0 if a.dtype in ("int", "short", "byte") else (r * 3e-7 if a.dtype == "float" else r * 1e-9))
        d = np.where(bx, 0, np.abs(np.where(bx, 0, x) - np.where(by, 0, y)))
        if not (d <= tol).all():
            k = tuple(np.argwhere(~(d <= tol))[0])
            raise Violation("%s%s is %r instead of %r" % (name, list(map(int, k)), y[k], x[k]))


def compare(ref, got, names, what, skip):
    fa, fb = sorted(os.listdir(ref)), sorted(os.listdir(got))
    if fa != fb:
        raise Violation("%s writes %s instead of %s" % (what, fb, fa))
    for f in fa:
        a, b = ncio.read(os.path.join(ref, f)), ncio.read(os.path.join(got, f))
        if a.format != b.format:
            raise Violation("%s: %s is %s instead of %s" % (what, f, b.format, a.format))
        if set(a.vars) - set(skip) != set(b.vars) - set(skip):
            raise Violation("%s: %s has %s instead of %s" % (what, f, sorted(b.vars), sorted(a.vars)))
        for v in set(a.vars) - set(skip):
            same(a.vars[v], b.vars[v], "%s: %s %s" % (what, f, v))
            p, q = dict(a.vars[v].attrs), dict(b.vars[v].attrs)
            if list(p) != list(q) or any(not np.array_equal(p[k], q[k]) for k in p):
                raise Violation("%s: %s attributes of %s are %s instead of %s" % (what, f, v, q, p))


def weights(d, pre):
    out = {}
    for f in sorted(os.listdir(d)):
        v = ncio.read(os.path.join(d, f)).vars
        rows = {}
        dist = v["tile1_distance"].data if "tile1_distance" in v else np.zeros((len(v["tile1"].data), 2))
        for t, a, b, w, q in zip(v["tile1"].data, v["tile1_cell"].data, v["tile2_cell"].data, v["xgrid_area"].data, dist):
            k = (int(t),) + tuple(map(int, a)) + tuple(map(int, b))
            if k in rows:
                raise Violation("%s lists the exchange cell %s twice" % (f, k))
            rows[k] = (float(w), float(q[0]), float(q[1]))
        out[f] = rows
    return out


def run(c, ctx):
    args, names = prepare(c, ctx)
    if not args:
        ctx.nontrivial(False)
        return
    args = [str(a) for a in args]
    i = args.index("--scalar_field")
    fields = args[i + 1]
    i = args.index("--input_file")
    infile = args[i + 1]
    os.makedirs(ctx.path("ref"), exist_ok=True)
    ctx.ok("fregrid", *args, "--output_dir", ctx.path("ref"), cwd=ctx.dir)
    os.makedirs(ctx.path("map"), exist_ok=True)
    known, order2, nont = None, "conserve_order2" in " ".join(args), False
    if not c["ll"]:
        order2 |= any(f["im"] == "conserve_order2" for f in c["base"]["fields"]) and c["base"]["kind"] == "cs2ll" and c["base"]["how"] != "conserve_order2_monotonic"
    for n, s in enumerate(c["hist"]):
        files = sorted(os.listdir(ctx.path("map")))
        if s["op"] == "drop":
            if files:
                os.unlink(ctx.path("map", files[s["k"] % len(files)]))
                ctx.label("dropped%d" % (len(files) > 1))
            continue
        a = list(args)
        skip = []
        if s["op"] == "save":
            if order2 and not "conserve_order2" in " ".join(args):
                continue                # weights of the order that a field attribute asks for are not known without the field
            if "--weight_field" in a:
                for o in ("--weight_field", "--weight_file"):
                    if o in a:
                        k = a.index(o)
                        del a[k:k + 2]
            for o in ("--input_file", "--scalar_field", "--output_file", "--KlevelBegin", "--KlevelEnd", "--LstepBegin", "--LstepEnd", "--associated_file_dir"):
                if o in a:
                    k = a.index(o)
                    del a[k:k + 2]
        elif s["sub"] and len(names) > 1 and not order2:
            k = a.index("--scalar_field")
            if len(set(fields.split(",")) & set(names)) == len(fields.split(",")):
                a[k + 1] = names[0]
                skip = names[1:]
        od = ctx.path("o%d" % n)
        os.makedirs(od, exist_ok=True)
        remap = s["remap"] or s["op"] == "save"
        if remap:
            a += ["--remap_file", ctx.path("map", "w.nc" if s["nc"] else "w")]
        if s["cc"]:
            a += ["--check_conserve"]
        if s["op"] == "run":
            a += ["--output_dir", od]
        np_ = s["np"]
        what = "run %d (%s%s, %s)" % (n, s["op"], " with remap file (%d present)" % len(files) if remap else "", "serial" if not np_ else "%d processes" % np_)
        r = ctx.run("fregrid_parallel" if np_ else "fregrid", *a, mpi=np_, cwd=ctx.dir)
        if r.rc:
            if np_ > 1 and "more divisions requested than rows available" in r.out + r.err:
                ctx.label("toosmall")
                continue
            raise Violation("%s fails: %s" % (what, r.brief()))
        nont |= np_ > 1 or (remap and bool(files) and s["op"] == "run")
        ctx.label("np%d" % min(np_, 2), "read" if remap and files and s["op"] == "run" else "fresh", "cc" if s["cc"] else "nocc")
        if s["op"] == "run":
            if skip:
                ctx.label("subset")
                # axes used only by the other fields need not be there
                used = set()
                for f in os.listdir(od):
                    used |= set(ncio.read(os.path.join(od, f)).vars)
                for f in os.listdir(ctx.path("ref")):
                    skip = set(skip) | {v for v in ncio.read(ctx.path("ref", f)).vars if v not in used and v not in names}
            compare(ctx.path("ref"), od, names, what, set(skip))
        if remap:
            w = weights(ctx.path("map"), what)
            if known is None:
                known = w
            for f in w:
                if f in known:
                    if set(w[f]) != set(known[f]):
                        raise Violation("%s: weight file %s lists other exchange cells: %s" % (what, f, sorted(set(w[f]) ^ set(known[f]))[:3]))
                    for k in w[f]:
                        x, y = np.array(w[f][k]), np.array(known[f][k])
                        if not np.allclose(x, y, rtol=1e-9, atol=[0, 1e-9, 1e-9] if order2 else 1e9):
                            raise Violation("%s: weight file %s has %s instead of %s for %s" % (what, f, x, y, k))
            known.update({f: w[f] for f in w if f not in known})
        shutil.rmtree(od)
    ctx.nontrivial(nont)
