"""Build the tools under test from /repo's current working tree.

The tree is mirrored (by content, not by time stamp) into /verif/.build/src and
built there with the project's own autotools build, so a check never writes in
/repo and always sees the current sources.
"""
import fcntl, os, re, shutil, subprocess, sys, time

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".build"))
SRC = os.path.join(ROOT, "src")
BLD = os.path.join(ROOT, "bld")
BIN = os.path.join(BLD, "src")
HYDRO = os.path.join(BLD, "tools", "simple_hydrog")


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ("VERBOSE", "MAKEFLAGS", "MAKELEVEL", "TESTS", "MALLOC_PERTURB_"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    return e


def _run(cmd, cwd, log):
    log.write("$ %s (in %s)\n" % (" ".join(cmd), cwd))
    log.flush()
    return subprocess.run(cmd, cwd=cwd, stdout=log, stderr=subprocess.STDOUT,
                          stdin=subprocess.DEVNULL, env=_env()).returncode


def _tail(path, n=40):
    with open(path, errors="replace") as f:
        return "".join(f.readlines()[-n:])


OLD = 1577836800  # fixed mtime for mirrored files, so that only edits are newer


def _stamp_generated():
    t = OLD
    for dp, dn, fn in os.walk(SRC):
        for f in fn:
            p = os.path.join(dp, f)
            if os.path.islink(p):
                continue
            if f == "aclocal.m4":
                m = t + 100
            elif f in ("configure", "config.h.in", "Makefile.in"):
                m = t + 200
            else:
                m = t
            os.utime(p, (m, m))


def build(verbose=False):
    os.makedirs(ROOT, exist_ok=True)
    with open(os.path.join(ROOT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build_locked(verbose)


def _build_locked(verbose):
    t0 = time.time()
    logp = os.path.join(ROOT, "build.log")
    fresh = not os.path.exists(os.path.join(SRC, ".mirrored"))
    if fresh:
        shutil.rmtree(SRC, ignore_errors=True)
        shutil.rmtree(BLD, ignore_errors=True)
    os.makedirs(SRC, exist_ok=True)
    os.makedirs(BLD, exist_ok=True)
    out = subprocess.run(
        ["rsync", "-rlpci", "--delete", "--exclude=/.git", "--exclude=/_build",
         "--exclude=/docs", "--exclude=/autom4te.cache", "--exclude=/.mirrored",
         # generated files: never deleted from or updated in the mirror once made
         *([] if fresh else ["--exclude=/configure", "--exclude=/aclocal.m4",
                             "--exclude=Makefile.in", "--exclude=/config.h.in",
                             "--exclude=/compile", "--exclude=/depcomp", "--exclude=/missing",
                             "--exclude=/install-sh", "--exclude=/ar-lib", "--exclude=/test-driver",
                             "--exclude=/tap-driver.sh", "--exclude=/configure~"]),
         REPO + "/", SRC + "/"],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if out.returncode != 0:
        raise BuildError("rsync failed: " + out.stdout[-2000:])
    changed = [l.split(None, 1)[1] for l in out.stdout.splitlines() if " " in l]
    with open(logp, "w") as log:
        if not (os.path.exists(SRC + "/configure") and os.path.exists(SRC + "/Makefile.in")):
            if _run(["autoreconf", "-i"], SRC, log):
                raise BuildError("autoreconf failed\n" + _tail(logp))
        if fresh:
            _stamp_generated()
            open(os.path.join(SRC, ".mirrored"), "w").close()
        if not (os.path.exists(BLD + "/config.status") and os.path.exists(BLD + "/Makefile")):
            if _run(["../src/configure", "--with-mpi", "CC=gcc", "FC=gfortran"], BLD, log):
                raise BuildError("configure failed\n" + _tail(logp))
        if not fresh and any(re.search(r"\.(f90|inc)$", c, re.I) or (c.startswith("tools/") and c.endswith(".h")) for c in changed):
            for dp, dn, fn in os.walk(SRC):
                for f in fn:
                    if f.lower().endswith(".f90"):
                        b = f.rsplit(".", 1)[0]
                        for bp, _, bfn in os.walk(BLD):
                            for o in bfn:
                                if o == b + ".o" or o.endswith("-" + b + ".o"):
                                    os.unlink(os.path.join(bp, o))
            for bp, _, bfn in os.walk(BLD):
                for o in bfn:
                    if o.endswith(".mod") or o in ("libnfu.a", "libnctf.a"):
                        os.unlink(os.path.join(bp, o))
        for d in ("lib", "src", "tools/simple_hydrog/lakes", "tools/simple_hydrog/postp", "tools/simple_hydrog/rmvpr"):
            cmd = ["make", "-C", d, "-j8"]
            if _run(cmd, BLD, log) and _run(cmd, BLD, log):
                raise BuildError("make failed in %s\n%s" % (d, _tail(logp)))
    dt = time.time() - t0
    if verbose:
        print("build: %.1f s, %d files changed" % (dt, len(changed)))
    return dt


if __name__ == "__main__":
    try:
        build(True)
    except BuildError as e:
        print(e)
        sys.exit(2)
