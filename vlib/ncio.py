"""Small in-memory model of a netCDF data set, with exact write / read / compare."""
import collections
import numpy as np
import netCDF4

FORMATS = ["NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF4_CLASSIC", "NETCDF4", "NETCDF3_64BIT_DATA"]
DT = {"byte": np.dtype("i1"), "char": np.dtype("S1"), "short": np.dtype("i2"), "int": np.dtype("i4"),
      "float": np.dtype("f4"), "double": np.dtype("f8")}


class Var:
    def __init__(self, dtype, dims, data, attrs=None):
        self.dtype, self.dims, self.data, self.attrs = dtype, tuple(dims), data, collections.OrderedDict(attrs or {})


class DS:
    def __init__(self):
        self.dims = collections.OrderedDict()   # name -> length
        self.unlim = set()
        self.vars = collections.OrderedDict()
        self.attrs = collections.OrderedDict()
        self.format = None

    def add_dim(self, name, n, unlim=False):
        self.dims[name] = n
        if unlim:
            self.unlim.add(name)

    def add(self, name, dtype, dims, data, **attrs):
        self.vars[name] = Var(dtype, dims, np.asarray(data), attrs)
        return self.vars[name]

    def write(self, path, fmt="NETCDF3_64BIT_OFFSET", nofill=False):
        nc = netCDF4.Dataset(path, "w", format=fmt, clobber=True)
        nc.set_auto_maskandscale(False)
        try:
            for k, v in self.attrs.items():
                nc.setncattr(k, v)
            for d, n in self.dims.items():
                nc.createDimension(d, None if d in self.unlim else n)
            out = []
            for name, v in self.vars.items():
                kw = {}
                if "_FillValue" in v.attrs:
                    kw["fill_value"] = v.attrs["_FillValue"]
                x = nc.createVariable(name, DT[v.dtype], v.dims, **kw)
                x.set_auto_maskandscale(False)
                if v.dtype == "char":
                    x.set_auto_chartostring(False)
                for k, a in v.attrs.items():
                    if k != "_FillValue":
                        x.setncattr(k, a)
                out.append((x, v))
            for x, v in out:
                if len(v.dims) == 0:
                    x[...] = v.data
                elif v.data.size:
                    if v.dims[0] in self.unlim:
                        x[:v.data.shape[0]] = v.data
                    else:
                        x[...] = v.data
        finally:
            nc.close()


def read(path):
    ds = DS()
    nc = netCDF4.Dataset(path, "r")
    try:
        nc.set_auto_maskandscale(False)
        ds.format = nc.data_model
        for k in nc.ncattrs():
            ds.attrs[k] = nc.getncattr(k)
        for d in nc.dimensions.values():
            ds.add_dim(d.name, len(d), d.isunlimited())
        inv = {v: k for k, v in DT.items()}
        for name, x in nc.variables.items():
            x.set_auto_maskandscale(False)
            if x.dtype == DT["char"]:
                x.set_auto_chartostring(False)
            a = collections.OrderedDict((k, x.getncattr(k)) for k in x.ncattrs())
            ds.vars[name] = Var(inv.get(x.dtype, str(x.dtype)), x.dimensions, np.asarray(x[...]), a)
    finally:
        nc.close()
    return ds


def att_eq(a, b):
    a = a.decode("latin-1") if isinstance(a, bytes) else a
    b = b.decode("latin-1") if isinstance(b, bytes) else b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    a, b = np.atleast_1d(np.asarray(a)), np.atleast_1d(np.asarray(b))
    return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def bits_eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    return a.tobytes() == b.tobytes()


def diff(exp, got, ignore_gatts=(), ignore_atts=(), order=True):
    """None, or a description of the first difference between two data sets (exact)."""
    if list(exp.dims.items()) != list(got.dims.items()) and (order or sorted(exp.dims.items()) != sorted(got.dims.items())):
        return "dimensions: expected %s got %s" % (list(exp.dims.items()), list(got.dims.items()))
    if exp.unlim != got.unlim:
        return "unlimited dimensions: expected %s got %s" % (sorted(exp.unlim), sorted(got.unlim))
    ev, gv = list(exp.vars), list(got.vars)
    if ev != gv and (order or sorted(ev) != sorted(gv)):
        return "variables: expected %s got %s" % (ev, gv)
    for n, e in exp.vars.items():
        g = got.vars[n]
        if e.dtype != g.dtype:
            return "variable %s: type %s, expected %s" % (n, g.dtype, e.dtype)
        if tuple(e.dims) != tuple(g.dims):
            return "variable %s: dims %s, expected %s" % (n, g.dims, e.dims)
        m = att_diff(e.attrs, g.attrs, ignore_atts)
        if m:
            return "variable %s: %s" % (n, m)
        if not bits_eq(np.asarray(e.data, dtype=g.data.dtype), g.data):
            return "variable %s: %s" % (n, data_diff(np.asarray(e.data, dtype=g.data.dtype), g.data))
    m = att_diff(exp.attrs, got.attrs, ignore_gatts)
    if m:
        return "global " + m
    return None


def att_diff(e, g, ignore=()):
    ek = [k for k in e if k not in ignore]
    gk = [k for k in g if k not in ignore]
    if sorted(ek) != sorted(gk):
        return "attributes %s, expected %s" % (sorted(gk), sorted(ek))
    for k in ek:
        if not att_eq(e[k], g[k]):
            return "attribute %s = %r, expected %r" % (k, g[k], e[k])
    return None


def data_diff(e, g):
    if e.shape != g.shape:
        return "shape %s, expected %s" % (g.shape, e.shape)
    if e.ndim == 0:
        return "value %r, expected %r" % (g[()], e[()])
    if e.dtype.kind == "f":
        bad = ~((e == g) | (np.isnan(e) & np.isnan(g)))
    else:
        bad = e != g
    idx = np.argwhere(bad)
    if len(idx) == 0:
        return "bitwise difference"
    i = tuple(int(x) for x in idx[0])
    return "%d of %d values differ; at %s got %r expected %r" % (len(idx), e.size, i, g[i], e[i])


def rand_data(rng, dtype, shape):
    """Arbitrary data of a type, including extreme values."""
    n = int(np.prod(shape)) if shape else 1
    if dtype == "char":
        a = rng.integers(32, 127, n).astype("u1").view("S1")
    elif dtype in ("byte", "short", "int"):
        ii = np.iinfo(DT[dtype])
        a = rng.integers(ii.min, ii.max, n, endpoint=True, dtype=np.int64)
        a[rng.random(n) < 0.05] = ii.max
        a[rng.random(n) < 0.05] = ii.min
        a[rng.random(n) < 0.05] = 0
        a = a.astype(DT[dtype])
    else:
        a = rng.standard_normal(n) * 10.0 ** rng.integers(-3, 6)
        a = a.astype(DT[dtype])
        if n:
            sp = np.array([0.0, -0.0, 1e20, np.inf, -1.0, 1e-30], dtype=a.dtype)
            m = rng.random(n) < 0.05
            a[m] = sp[rng.integers(0, len(sp), int(m.sum()))]
    return a.reshape(shape)
