"""Generator of icebergs restart sets."""
import numpy as np
from hypothesis import strategies as st
from . import ncio
from .ncio import DS, Var, DT


def draw_ice(draw, nmin=2):
    n = draw(st.integers(nmin, 4))
    return dict(nrec=[draw(st.sampled_from([0, 0, 1, 2, 3, 12])) for _ in range(n)],
                vars=[draw(st.sampled_from(["double", "float", "int", "short"])) for _ in range(draw(st.integers(1, 4)))],
                k=draw(st.integers(0, 2)), ver=draw(st.sampled_from([[0, 1], [0, 2], [1, 0], [2, 0], [1, 1]])), seed=draw(st.integers(0, 2 ** 31)),
                fmt=draw(st.sampled_from(["NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF4", "NETCDF4_CLASSIC"])))


def build(c):
    rng = np.random.default_rng(c["seed"])
    files = []
    for n in c["nrec"]:
        ds = DS()
        ds.add_dim("i", n, True)
        if c["k"] and len(c["vars"]) > 1:
            ds.add_dim("k", c["k"])
        for j, ty in enumerate(c["vars"]):
            dims = ("i", "k") if c["k"] and j % 2 else ("i",)
            shp = (n, c["k"]) if len(dims) == 2 else (n,)
            a = ncio.rand_data(rng, ty, shp)
            if a.dtype.kind == "f":
                a = np.where(np.isfinite(a), a, 1.5).astype(a.dtype)
            ds.vars["b%d" % j] = Var(ty, dims, a, {"long_name": "iceberg %d" % j, "units": "m"})
        ds.attrs["file_format_major_version"] = np.int32(c["ver"][0])
        ds.attrs["file_format_minor_version"] = np.int32(c["ver"][1])
        ds.attrs["time_axis"] = np.int32(0)
        ds.attrs["NumFilesInSet"] = np.int32(len(c["nrec"]))
        files.append(ds)
    return files


def combined(files):
    src = [f for f in files if f.dims["i"] > 0] or files[:1]
    out = DS()
    out.attrs.update({k: v for k, v in src[0].attrs.items() if k != "NumFilesInSet"})
    for d, n in src[0].dims.items():
        out.add_dim(d, sum(f.dims["i"] for f in src) if d == "i" else n, d == "i")
    for n, v in src[0].vars.items():
        out.vars[n] = Var(v.dtype, v.dims, np.concatenate([f.vars[n].data for f in src], axis=0), v.attrs)
    return out


NCO = ("history", "NCO", "nco_openmp_thread_number", "history_of_appended_files", "nco_input_file_number", "nco_input_file_list")
