"""mppnccombine never destroys data: existing outputs, inputs, exit statuses, under faults."""
import hashlib, os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio
from vlib.decomp import draw_dataset, build_pieces, build_expected

ID = "C02"
QUICK, THOROUGH = 1600, 40000
RULE = ("A decomposed set and bystander files are generated, then one fault or situation (existing output, missing inputs with or "
        "without -f, an input that is not a netCDF file, differing record counts, a write limit that fails or kills the process at a "
        "generated output size, -r, -x) and the exit status and every file in the directory are compared with the rule; "
        "non-trivial = at least 2 pieces.")
ASSUMPTIONS = ["a failing write is produced with RLIMIT_FSIZE (EFBIG, or SIGXFSZ to stop the process at that write)",
               "a write failure is checked for the loss of inputs and a zero status only when the output really is incomplete"]
SITS = ["exists", "missing", "missing", "force", "force", "remove", "remove", "corrupt", "records", "x", "nospace", "nospace", "crash", "append", "xkeep"]


@st.composite
def cases(draw):
    c = draw_dataset(draw, allow_drop=False)
    c["sit"] = draw(st.sampled_from(SITS))
    c["fmt"] = draw(st.sampled_from(ncio.FORMATS[:4]))
    c["mode"] = draw(st.sampled_from(["auto", "range", "list"]))
    c["start"] = draw(st.sampled_from([0, 0, 1, 5])) if c["mode"] != "list" else 0
    c["width"] = draw(st.sampled_from([4, 6]))
    c["r"] = draw(st.booleans()) or c["sit"] == "remove"
    c["m"] = draw(st.booleans())
    c["k"] = draw(st.sampled_from([None, None, 0, 2, 100]))
    c["n4"] = draw(st.booleans())
    c["pick"] = draw(st.integers(0, 10 ** 6))
    c["frac"] = draw(st.integers(0, 100))
    return c


def strategy(tier):
    return cases()


def snap(d):
    out = {}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            out[f] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


def run(c, ctx):
    ctx.perturb = False
    pieces = build_pieces(c)
    n = len(pieces)
    rng = np.random.default_rng(c["pick"])
    sit, mode = c["sit"], c["mode"]
    args = []
    if c["m"]:
        args += ["-m"]
    if c["n4"]:
        args += ["-n4"]
    if c["k"] is not None:
        args += ["-k", c["k"]]
    if c["r"]:
        args += ["-r"]
    if mode == "list":
        names = ["in%d.nc" % i for i in range(n)]
        tail = names
    else:
        names = ["out.nc.%0*d" % (c["width"], c["start"] + i) for i in range(n)]
        tail = []
        if c["start"]:
            args += ["-n", c["start"]]
        if mode == "range":
            args += ["-e", c["start"] + n - 1]
    use = dict(zip(names, pieces))
    for nm, p in use.items():
        p.write(ctx.path(nm), c["fmt"])
    # bystanders: numbers before and after the set, another set, the set's own name with a suffix
    by = ["out.nc.%0*d" % (c["width"], c["start"] + n), "out.nc.%0*d" % (c["width"], c["start"] + n + 1), "out.nc.bak", "other.nc.0000"]
    if c["start"]:
        by.append("out.nc.%0*d" % (c["width"], c["start"] - 1))
    if mode == "list":
        by.append("out.nc.0000")
    for b in set(by) - set(names):
        pieces[0].write(ctx.path(b), c["fmt"])
    lost = []
    if sit in ("append", "xkeep"):
        # an output is there already: what cannot be appended, and -x, leave it as it is
        if sit == "append":
            r = ctx.run("mppnccombine", *[a for a in args if a != "-r"], "out.nc", *tail)
            if r.rc != 0:
                raise Violation("combine failed on a complete set: " + r.brief())
            old = ncio.read(ctx.path("out.nc"))
        else:
            open(ctx.path("out.nc"), "wb").write(b"precious" * 3)
        how = ["none", "missing", "missing", "other"][int(rng.integers(0, 4))]
        if how == "missing" and mode == "auto" and n < 2:
            how = "none"
        if how == "missing":
            # (without -e the set starts at the first number that is there)
            os.unlink(ctx.path(names[{"list": int(rng.integers(0, n)), "range": n - 1, "auto": 1 + int(rng.integers(0, max(n - 1, 1)))}[mode]]))
        if how == "other":
            i = int(rng.integers(0, n))
            os.unlink(ctx.path(names[i]))
            d = build_pieces(c)[i]
            nm = sorted(d.vars)[int(rng.integers(0, len(d.vars)))]
            d.vars["other" + nm] = d.vars.pop(nm)
            d.write(ctx.path(names[i]), c["fmt"])
        before = snap(ctx.dir)
        r = ctx.run("mppnccombine", "-a" if sit == "append" else "-x", *args, "out.nc", *tail)
        after = snap(ctx.dir)
        ctx.label("sit=" + sit, how)
        ctx.nontrivial(n >= 2)
        gone = [f for f in before if f not in after and not (f in names and c["r"] and r.rc == 0 and sit == "append")]
        if gone:
            raise Violation("%s with %s input: %s was removed (%s)" % (sit, how, gone[0], r.brief()))
        for f in after:
            if f != "out.nc" and after[f] != before.get(f):
                raise Violation("%s: %s was changed" % (sit, f))
        if sit == "xkeep":
            if after["out.nc"] != before["out.nc"]:
                raise Violation("-x changed the file of the output name")
            return
        if (how == "none") != (r.rc == 0):
            raise Violation("appending with %s input: exit status %s (%s)" % (how, r.rc, r.brief()))
        m = ncio.diff(old, ncio.read(ctx.path("out.nc")))
        if m:
            raise Violation("appending the same data again (%s input) changed the output: %s" % (how, m))
        return
    if sit in ("missing", "force"):
        # (numbers missing at the start of a -e range are not part of the set)
        lo = 0 if sit == "missing" and mode != "range" else 1
        if n - lo >= 1:
            k = int(rng.integers(1, n - lo + 1))
            lost = sorted(int(i) + lo for i in rng.choice(n - lo, k, replace=False))
        for i in lost:
            os.unlink(ctx.path(names[i]))
        if sit == "force":
            args += ["-f"]
    bad = None
    if sit == "corrupt":
        bad = int(rng.integers(0, n))
        p = ctx.path(names[bad])
        b = open(p, "rb").read()
        how = int(rng.integers(0, 3))
        open(p, "wb").write(b"" if how == 0 else b[:3] if how == 1 else b"not netCDF" * 30)
    if sit == "records":
        if n < 2 or not c["nrec"] or not any(v["dims"][:1] == ["t"] and set(v["dims"]) & {"x", "y", "xq", "yq"} for v in c["vars"]):
            ctx.label("records:n/a")
            return
        c2 = dict(c, nrec=c["nrec"] + 1)
        bad = int(rng.integers(1, n))
        os.unlink(ctx.path(names[bad]))
        build_pieces(c2)[bad].write(ctx.path(names[bad]), c["fmt"])
    if sit == "exists":
        how = int(rng.integers(0, 3))
        if how == 0:
            open(ctx.path("out.nc"), "wb").write(b"precious" * 3)
        elif how == 1:
            open(ctx.path("out.nc"), "wb").close()
        else:
            pieces[0].write(ctx.path("out.nc"), c["fmt"])
    if sit == "x":
        args += ["-x"]
    before = snap(ctx.dir)
    inputs = [nm for i, nm in enumerate(names) if i not in lost]

    def kept(after, what, ignore=("out.nc",)):
        for f, h in before.items():
            if f in ignore:
                continue
            if f not in after:
                raise Violation("%s: %s was removed" % (what, f))
            if after[f] != h:
                raise Violation("%s: %s was changed" % (what, f))
        for f in after:
            if f not in before and f not in ignore:
                raise Violation("%s: unexpected file %s" % (what, f))

    ctx.label("sit=" + sit, "mode=" + mode)
    if c["r"]:
        ctx.label("-r")
    ctx.nontrivial(n >= 2)
    if sit in ("nospace", "crash"):
        r0 = ctx.run("mppnccombine", *[a for a in args if a != "-r"], "out.nc", *tail)
        if r0.rc != 0:
            raise Violation("combine failed on a complete set: " + r0.brief())
        size = os.path.getsize(ctx.path("out.nc"))
        full = ncio.read(ctx.path("out.nc"))
        os.unlink(ctx.path("out.nc"))
        lim = size * c["frac"] // 100
        blk = lim // 1024
        sh = ("trap '' XFSZ; " if sit == "nospace" else "") + "ulimit -f %d; ulimit -c 0; exec \"$@\"" % blk
        r = ctx.run("bash", "-c", sh, "sh", ctx.tool("mppnccombine"), *args, "out.nc", *tail, raw=True)
        after = snap(ctx.dir)
        complete = False
        if "out.nc" in after:
            try:
                complete = ncio.diff(full, ncio.read(ctx.path("out.nc"))) is None
            except Exception:
                complete = False
        if complete and r.rc == 0:
            return
        if not complete:
            ctx.label("write-failed")
            if r.rc == 0:
                raise Violation("a write failed, the output is incomplete, and the exit status is 0: " + r.brief())
            kept(after, "failed write")
        return
    r = ctx.run("mppnccombine", *args, "out.nc", *tail)
    after = snap(ctx.dir)
    if sit == "exists":
        if r.rc == 0:
            raise Violation("exit status 0 though the output existed: " + r.brief())
        kept(after, "existing output", ignore=())
        return
    if sit == "x":
        if "out.nc" in after:
            raise Violation("-x created the output")
        kept(after, "-x")
        if r.rc != 0:
            raise Violation("-x failed on a complete set: " + r.brief())
        return
    if sit in ("corrupt", "records") or (sit == "missing" and lost):
        if r.rc == 0:
            raise Violation("exit status 0 although an input file is %s: %s" % (sit, r.brief()))
        if r.rc < 0 or r.rc > 9:
            raise Violation("crash on an incomplete set: " + r.brief())
        kept(after, sit + " input")
        if sit == "missing" and "out.nc" in after and not (mode != "list" and 0 in lost):
            raise Violation("an output file was left behind for an incomplete set: " + r.brief())
        return
    got = [p for i, p in enumerate(pieces) if i not in lost]
    if sit == "force" and lost:
        if r.rc == 0:
            raise Violation("-f: exit status 0 although input files are missing: " + r.brief())
        kept(after, "-f with missing inputs")
    elif r.rc != 0:
        raise Violation("combine failed on a complete set: " + r.brief())
    exp = build_expected(c, c["m"], "out.nc", got)
    if "out.nc" not in after:
        raise Violation("no output: " + r.brief())
    m = ncio.diff(exp, ncio.read(ctx.path("out.nc")))
    if m:
        raise Violation("output differs: %s (%s)" % (m, r.brief()))
    if not (sit == "force" and lost):
        if c["r"]:
            for nm in inputs:
                if nm in after:
                    raise Violation("-r left the input %s" % nm)
            kept(after, "-r", ignore=["out.nc"] + inputs)
        else:
            kept(after, "combine")
