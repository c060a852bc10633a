"""combine_restarts: every set of a directory is combined by its own rule, nothing else is touched."""
import hashlib, os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation, B
from vlib import ncio, ice, ncc, decomp

ID = "C09"
QUICK, THOROUGH = 900, 12000
RULE = ("A restart directory with 1-3 generated sets (domain-decomposed, land-compressed, icebergs; confusable names), bystanders and "
        "possibly a previous combined file or a broken set is processed with generated options; every file is compared with the model; "
        "non-trivial = at least 2 sets, or -n, or a broken set.")
ASSUMPTIONS = ["NCO and ncdump are trusted", "file names have no blanks and end in .NNNN (four digits)"]
NAMES = ["a.res.nc", "a_res.nc", "axres.nc", "b.res.tile1.nc", "b.res.tile10.nc", "bxres.tile1.nc", "c.nc", "ac.nc", "ice.res.nc",
         "ice.res-nc", "cana.res.nc", "a.res.nc.1.nc", "a+b.res.nc", "soil.res.nc"]


@st.composite
def cases(draw):
    c = {"sets": []}
    for n in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)):
        k = draw(st.sampled_from(["mpp", "mpp", "ncc", "ice"]))
        s = dict(name=n, kind=k)
        if k == "mpp":
            s["d"] = decomp.draw_dataset(draw, allow_drop=False, maxn=6)
            s["fmt"] = draw(st.sampled_from(ncio.FORMATS[:4]))
        elif k == "ncc":
            s["d"] = ncc.draw_set(draw, "combine")
        else:
            s["d"] = ice.draw_ice(draw)
        s["old"] = draw(st.booleans()) if k != "ice" else False
        c["sets"].append(s)
    c["broken"] = draw(st.sampled_from([None] * 5 + [0, 1, 2]))
    c["r"] = draw(st.booleans())
    c["n"] = draw(st.sampled_from([False, False, False, True]))
    c["v"] = draw(st.integers(0, 2))
    c["M"] = draw(st.sampled_from([None, None, "-64", "-n4 -m"]))
    return c


def strategy(tier):
    return cases()


def snap(d):
    return {f: hashlib.sha1(open(os.path.join(d, f), "rb").read()).hexdigest() for f in sorted(os.listdir(d))}


def run(c, ctx):
    ctx.perturb = False
    plan = []
    d = ctx.path("RESTART")
    os.makedirs(d)
    for s in c["sets"]:
        if s["kind"] == "mpp":
            pcs = decomp.build_pieces(s["d"])
            miss = c["M"] is None or "-m" in c["M"]
            exp = decomp.build_expected(s["d"], miss, s["name"], pcs)
            fmt = s["fmt"]
        elif s["kind"] == "ncc":
            pcs, idx, _ = ncc.build(s["d"])
            exp = ncc.combined(pcs, idx)
            fmt = s["d"]["fmt"]
        else:
            pcs = ice.build(s["d"])
            exp = ice.combined(pcs)
            fmt = s["d"]["fmt"]
        names = ["%s.%04d" % (s["name"], i) for i in range(len(pcs))]
        for n, p in zip(names, pcs):
            p.write(os.path.join(d, n), fmt)
        if s["old"]:
            pcs[0].write(os.path.join(d, s["name"]), fmt)
        plan.append((s, names, exp))
    broken = None
    if c["broken"] is not None:
        broken = plan[c["broken"] % len(plan)]
        open(os.path.join(d, broken[1][-1]), "w").write("junk " * 50)
    for b in ("coupler.res", "notes.txt.0000", "x.nc.bak", "a.res.nc.00000", "y.nc.12"):
        open(os.path.join(d, b), "w").write("bystander " + b)
    before = snap(d)
    args = ["-v"] * c["v"] + (["-r"] if c["r"] else []) + (["-n"] if c["n"] else [])
    if c["M"]:
        args += ["-M", c["M"]]
    C = len(plan[0][1]) % 2 == 1
    if C:
        args += ["-C", "-v"]
    r = ctx.run("combine_restarts", *args, cwd=d, env={"PKGLIBEXECDIR": B.BIN})
    after = snap(d)
    ctx.label("sets=%d" % len(plan), "broken" if broken else "complete", "-n" if c["n"] else "real", *["kind=" + p[0]["kind"] for p in plan])
    ctx.nontrivial(len(plan) > 1 or c["n"] or broken is not None)
    if c["n"]:
        if before != after:
            raise Violation("a dry run changed the directory: %s" % sorted(set(before.items()) ^ set(after.items())))
        if broken is None and r.rc != 0:
            raise Violation("dry run failed: " + r.brief())
        if broken is None:
            for s, names, exp in plan:
                if not any(names[0] in l.split() and names[-1] in l.split() and s["name"] in l.split() for l in r.out.splitlines()):
                    raise Violation("the dry run does not print the command for %s: %s" % (s["name"], r.brief()))
                if C and s["kind"] == "ncc" and not any(names[0] in l.split() and "-v" in l.split() for l in r.out.splitlines()):
                    raise Violation("the option given with -C is not passed to combine-ncc: " + r.brief())
        return
    own = {n for _, names, _ in plan for n in names} | {p[0]["name"] for p in plan}
    for f in before:
        if f not in own and after.get(f) != before[f]:
            raise Violation("%s, which is not part of a set, was changed or removed" % f)
    for f in after:
        if f not in before and f not in own:
            raise Violation("unexpected new file %s" % f)
    if broken is not None and r.rc == 0:
        raise Violation("exit status 0 although %s is not a netCDF file: %s" % (broken[1][-1], r.brief()))
    if broken is None and r.rc != 0:
        raise Violation("failed on complete sets: " + r.brief())
    for s, names, exp in plan:
        left = [n for n in names if n in after]
        for n in left:
            if after[n] != before[n]:
                raise Violation("input %s was changed" % n)
        if broken is not None:
            if s is broken[0] and left != names:
                raise Violation("inputs of the broken set were removed: %s" % sorted(set(names) - set(left)))
            if left != names and (left or not c["r"]):
                raise Violation("inputs of set %s were removed: left %s" % (s["name"], left))
            if left == names:
                continue      # not combined, or not removed, before the failure
        elif c["r"] and left:
            raise Violation("-r left %s" % left)
        elif not c["r"] and left != names:
            raise Violation("inputs of %s were removed without -r" % s["name"])
        if s["name"] not in after:
            raise Violation("no combined file %s" % s["name"])
        m = ncio.diff(exp, ncio.read(os.path.join(d, s["name"])), ignore_gatts=ice.NCO if s["kind"] == "ice" else (), order=s["kind"] != "ice")
        if m:
            raise Violation("set %s (%s): %s" % (s["name"], s["kind"], m))
