"""Every tool reports a missing or unreadable input and a failed write by its exit status."""
import hashlib, importlib, os, shutil
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation, Inconclusive, Ctx
from vlib import ncio

ID = "C33"
QUICK, THOROUGH = 1500, 40000
RULE = ("A valid run of one of the tools is generated with the generators of the other properties; the same command is then repeated in the "
        "same directory with one fault: an input file named on the command line removed, emptied or replaced by other bytes, or a limit on "
        "the size of a written file (EFBIG) at a generated part of the largest output; non-trivial = the fault was injected.")
ASSUMPTIONS = ["a failing write is produced with RLIMIT_FSIZE and SIGXFSZ ignored",
               "an input is a file named by an argument (also without .nc or .tileN.nc) that the valid run left unchanged; remapping files of fregrid, which are made when absent, are not counted",
               "serial runs only"]
MODS = ["C03", "C04", "C05", "C06", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26",
        "C27", "C28", "C29", "C30", "C31", "C32"]
FAULTS = ["gone", "empty", "junk", "space", "space", "space"]


def mod(m):
    return importlib.import_module("checks." + m)


def strategy(tier):
    @st.composite
    def s(draw):
        m = draw(st.sampled_from(MODS))
        f = draw(st.sampled_from(FAULTS))
        p = draw(st.integers(0, 10 ** 6))
        return dict(mod=m, fault=f, pick=p, case=draw(mod(m).strategy(tier)))
    return s()


def files(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            if os.path.isfile(p):
                out[os.path.relpath(p, d)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


class Rec(Ctx):
    """runs the valid commands, keeping what the directory held before each"""

    def __init__(self, ctx, keep):
        super().__init__(ctx.dir, ctx.timeout)
        self.calls, self.keep = [], keep

    def run(self, name, *args, **kw):
        use = not kw.get("raw") and not kw.get("mpi") and kw.get("stdin") is None
        if use:
            d = os.path.join(self.keep, str(len(self.calls)))
            shutil.copytree(self.dir, d)
        r = super().run(name, *args, **kw)
        if use and r.rc == 0:
            self.calls.append((name, args, kw, d, os.path.join(self.keep, "%d.after" % len(self.calls)), self.env, self.perturb))
            shutil.copytree(self.dir, self.calls[-1][4])
        elif use:
            shutil.rmtree(d)
        return r


def same(a, b):
    if open(a, "rb").read() == open(b, "rb").read():
        return None
    try:
        x = ncio.read(a)
    except Exception:
        return "contents"
    try:
        y = ncio.read(b)
    except Exception as e:
        return "not readable"
    x.attrs.clear(); y.attrs.clear()
    return ncio.diff(x, y)


def restore(d, snap):
    for f in os.listdir(d):
        p = os.path.join(d, f)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    shutil.copytree(snap, d, dirs_exist_ok=True)


def kept(ctx, before, after, but, r):
    """files the valid run leaves alone are left alone by the failing one"""
    now = files(ctx.dir)
    for f in before:
        if f != but and after.get(f) == before[f] and now.get(f) != before[f]:
            raise Violation("the failing run %s %s (%s)" % ("changed" if f in now else "removed", f, r.brief()))


def run(c, ctx):
    keep = ctx.dir + ".keep"
    shutil.rmtree(keep, ignore_errors=True)
    os.makedirs(keep)
    try:
        go(c, ctx, keep)
    finally:
        shutil.rmtree(keep, ignore_errors=True)


def go(c, ctx, keep):
    rec = Rec(ctx, keep)
    try:
        mod(c["mod"]).run(c["case"], rec)
    except Inconclusive:
        raise
    except Exception:
        pass                         # (another property's business)
    if not rec.calls:
        ctx.label("no command")
        return
    rng = np.random.default_rng(c["pick"])
    name, args, kw, snap, snap2, ctx.env, ctx.perturb = rec.calls[int(rng.integers(0, len(rec.calls)))]
    before, after = files(snap), files(snap2)
    fault = c["fault"]
    restore(ctx.dir, snap)
    cwd = kw.get("cwd") or ctx.dir
    if fault == "space":
        new = {f for f in after if after[f] != before.get(f)}
        big = max([os.path.getsize(os.path.join(snap2, f)) for f in new], default=0)
        if not big:
            ctx.label("no output")
            return
        lim = int(rng.integers(0, big))
        sh = "trap '' XFSZ; exec prlimit --fsize=%d \"$@\"" % lim
        kw2 = {k: v for k, v in kw.items() if k in ("cwd", "env")}
        r = ctx.run("bash", "-c", sh, "sh", ctx.tool(name), *args, raw=True, **kw2)
        ctx.label("%s:space" % name)
        ctx.nontrivial()
        kept(ctx, before, after, None, r)
        if r.rc == 0:
            for f in sorted(new):
                p = ctx.path(f)
                m = same(os.path.join(snap2, f), p) if os.path.exists(p) else "absent"
                if m:
                    raise Violation("exit status 0 although %s could not be written (limit %d of %d bytes): %s (%s)" % (f, lim, big, m, r.brief()))
            ctx.label("written anyway")
        return
    cand = set()
    for k, a in enumerate(args):
        if k and str(args[k - 1]) in ("--remap_file",):
            continue
        for w in str(a).split("=")[-1].split(","):
            for b in [w, w + ".nc"] + [w + ".tile%d.nc" % t for t in range(1, 7)]:
                f = os.path.relpath(os.path.join(cwd, b), ctx.dir) if w else None
                if f in before and after.get(f) == before[f]:
                    cand.add(f)
    if not cand:
        ctx.label("no input")
        return
    f = sorted(cand)[int(rng.integers(0, len(cand)))]
    p = ctx.path(f)
    nc = open(p, "rb").read(4)[:3] in (b"CDF", b"\x89HD")
    os.unlink(p)
    if fault != "gone":
        if not nc:
            ctx.label("not netCDF")
            return
        open(p, "wb").write(b"" if fault == "empty" else rng.bytes(int(rng.integers(1, 3000))))
    r = ctx.run(name, *args, **kw)
    ctx.label("%s:%s" % (name, fault))
    ctx.nontrivial()
    kept(ctx, before, after, f, r)
    if r.rc == 0:
        raise Violation("exit status 0 although %s %s (%s)" % (f, {"gone": "does not exist", "empty": "is empty", "junk": "is not a netCDF file"}[fault], r.brief()))
