"""Cubed spheres for fregrid and the exchange-grid tools: grids, neighbours, gradients, exact polygon overlaps."""
import os
import sys
import numpy as np
from . import grid, sph

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
D = np.pi / 180.0
R = 6371.0e3


def cube(n, tr=None, shift=None, stretch=1.0, lon=0.0, lat=-90.0):
    """supergrids [(lon, lat)] in degrees (equal points equal) and contacts of a cubed sphere"""
    from checks import C14
    t, con, _, _ = C14.cube(dict(n=n, tr=tr, shift=shift, stretch=stretch, lon=lon, lat=lat, mode="plain", nestt=None))
    return t, con


def write(d, name, tiles, con, gattrs=None, angle=False):
    os.makedirs(d, exist_ok=True)
    files, names = [], []
    for k, (x, y) in enumerate(tiles):
        tn = "tile%d" % (k + 1)
        f = "%s_grid.%s.nc" % (name, tn)
        n1, n0 = x.shape
        grid.hgrid(os.path.join(d, f), x, y, tn, gattrs=gattrs, angle=np.full(x.shape, 30.0) if angle else None)
        files.append(f); names.append(tn)
    cs = [(a[0], b[0], "%d:%d,%d:%d::%d:%d,%d:%d" % (a[1], a[2], a[3], a[4], b[1], b[2], b[3], b[4])) for a, b in sorted(con)]
    p = os.path.join(d, name + ".nc")
    grid.mosaic(p, name, files, names, contacts=cs, gattrs=gattrs)
    return p


def key(p):
    return tuple(np.round(p, 6) + 0.0)


def halo_index(tiles):
    """(6, n+2, n+2) index of the cell (flat over tiles) around and inside every tile, -1 in the corners"""
    n = (tiles[0][0].shape[0] - 1) // 2
    mid = {}
    side = {}
    for t, (x, y) in enumerate(tiles):
        v = sph.xyz(x, y)
        for k in range(n):
            c = 2 * k + 1
            for s, p, cell in (("S", v[0, c], (0, k)), ("N", v[-1, c], (n - 1, k)), ("W", v[c, 0], (k, 0)), ("E", v[c, -1], (k, n - 1))):
                mid.setdefault(key(p), []).append((t, cell))
                side[t, s, k] = key(p)
    out = np.full((6, n + 2, n + 2), -1)
    for t in range(6):
        out[t, 1:-1, 1:-1] = t * n * n + np.arange(n * n).reshape(n, n)
        for k in range(n):
            for s, at in (("S", (0, k + 1)), ("N", (n + 1, k + 1)), ("W", (k + 1, 0)), ("E", (k + 1, n + 1))):
                o = [(u, c) for u, c in mid[side[t, s, k]] if u != t]
                assert len(o) == 1, o
                u, (j, i) = o[0]
                out[(t,) + at] = u * n * n + j * n + i
    return out


class Gradient:
    """gradient along longitude (times cosine) and latitude per radian, by Green's theorem on values at the corners"""

    def __init__(self, tiles):
        self.n = n = (tiles[0][0].shape[0] - 1) // 2
        self.h = halo_index(tiles)
        self.t = []
        cen = np.concatenate([sph.xyz(x[1::2, 1::2], y[1::2, 1::2]).reshape(-1, 3) for x, y in tiles])
        for t, (x, y) in enumerate(tiles):
            c = sph.xyz(x[::2, ::2], y[::2, ::2])
            g = {}
            g["dx"], g["dy"] = sph.angle(c[:, :-1], c[:, 1:]), sph.angle(c[:-1], c[1:])
            u = np.cross(c[:, :-1], c[:, 1:]); g["en"] = u / np.linalg.norm(u, axis=-1, keepdims=True)
            u = np.cross(c[1:], c[:-1]); g["ee"] = u / np.linalg.norm(u, axis=-1, keepdims=True)
            g["area"] = sph.quad(c[:-1, :-1], c[:-1, 1:], c[1:, 1:], c[1:, :-1])
            lo, la = x[1::2, 1::2] * D, y[1::2, 1::2] * D
            g["vlon"] = np.stack([-np.sin(lo), np.cos(lo), 0 * lo], -1)
            g["vlat"] = np.stack([-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)], -1)
            p = cen[self.h[t]]

            def w(a, b, q):
                m = a + b
                m = m / np.linalg.norm(m, axis=-1, keepdims=True)
                d1, d2 = sph.angle(m[:-1], q), sph.angle(m[1:], q)
                return d2 / (d1 + d2)
            g["w"] = w(p[1:-1, 0], p[1:-1, 1], c[1:-1, 0])
            g["e"] = w(p[1:-1, -2], p[1:-1, -1], c[1:-1, -1])
            g["s"] = w(p[0, 1:-1], p[1, 1:-1], c[0, 1:-1])
            g["n"] = w(p[-2, 1:-1], p[-1, 1:-1], c[-1, 1:-1])
            self.t.append(g)
        self.centroid = ([], [])
        for x, y in tiles:
            lo, la = cells(x[::2, ::2], y[::2, ::2])
            for k in np.ndindex(n, n):
                p = llpoly(lo[k], la[k])
                a, cx, cy = moments(p, p[:, 0].mean())
                self.centroid[0].append(cx / a)
                self.centroid[1].append(cy / a)
        self.centroid = tuple(np.array(q) for q in self.centroid)

    def corners(self, q, g):
        b = np.zeros((self.n + 1,) * 2)
        b[1:-1, 1:-1] = 0.25 * (q[1:-2, 1:-2] + q[1:-2, 2:-1] + q[2:-1, 1:-2] + q[2:-1, 2:-1])
        b[0, 0] = (q[1, 1] + q[1, 0] + q[0, 1]) / 3
        b[0, -1] = (q[1, -2] + q[0, -2] + q[1, -1]) / 3
        b[-1, -1] = (q[-2, -2] + q[-2, -1] + q[-1, -2]) / 3
        b[-1, 0] = (q[-2, 1] + q[-2, 0] + q[-1, 1]) / 3
        for k, a in (("w", 0.5 * (q[1:-1, 0] + q[1:-1, 1])), ("e", 0.5 * (q[1:-1, -2] + q[1:-1, -1])),
                     ("s", 0.5 * (q[0, 1:-1] + q[1, 1:-1])), ("n", 0.5 * (q[-2, 1:-1] + q[-1, 1:-1]))):
            v = g[k] * a[:-1] + (1 - g[k]) * a[1:]
            if k == "w": b[1:-1, 0] = v
            if k == "e": b[1:-1, -1] = v
            if k == "s": b[0, 1:-1] = v
            if k == "n": b[-1, 1:-1] = v
        return b

    def __call__(self, v):
        """v (6, n, n) -> gx, gy"""
        f = np.asarray(v, float).reshape(-1)
        gx, gy = np.zeros(v.shape), np.zeros(v.shape)
        for t, g in enumerate(self.t):
            b = self.corners(f[self.h[t]], g)
            px = (0.5 * (b[:, 1:] + b[:, :-1]) * g["dx"])[..., None] * g["en"]
            py = (0.5 * (b[1:] + b[:-1]) * g["dy"])[..., None] * g["ee"]
            G = px[1:] - px[:-1] + py[:, 1:] - py[:, :-1]
            gx[t] = (G * g["vlon"]).sum(-1) / g["area"]
            gy[t] = (G * g["vlat"]).sum(-1) / g["area"]
        return gx, gy

    def near(self, v, fill=np.nan):
        """values of the 3 x 3 cells around every cell, nan past the cube corners: (6, n, n, 9)"""
        f = np.concatenate([np.asarray(v, float).reshape(-1), [fill]])
        q = f[self.h]
        n = self.n
        return np.stack([q[:, j:j + n, i:i + n] for j in range(3) for i in range(3)], -1)


# ---- polygons with straight sides in longitude-latitude (radians) ----

def llpoly(lon, lat):
    """vertices made continuous in longitude; a corner on a pole becomes the two ends of its parallel"""
    p = [[a, b] for a, b in zip(lon, lat)]
    pole = [abs(abs(b) - np.pi / 2) < 1e-9 for _, b in p]
    q = []
    m = len(p)
    for k in range(m):
        if not pole[k]:
            q.append(list(p[k]))
            continue
        y = np.copysign(np.pi / 2, p[k][1])
        if not pole[k - 1]:
            q.append([p[k - 1][0], y])
        if not pole[(k + 1) % m]:
            q.append([p[(k + 1) % m][0], y])
    for k in range(1, len(q)):
        d = q[k][0] - q[k - 1][0]
        q[k][0] -= 2 * np.pi * np.round(d / (2 * np.pi))
    return np.array(q)


def clip(p, f):
    """part of polygon p where the linear form f = (a, b, c): a*x + b*y + c >= 0"""
    if len(p) == 0:
        return p
    s = p @ np.array(f[:2]) + f[2]
    out = []
    m = len(p)
    for k in range(m):
        a, b = s[k - 1], s[k]
        if (a < 0) != (b < 0):
            t = a / (a - b)
            out.append(p[k - 1] + t * (p[k] - p[k - 1]))
        if b >= 0:
            out.append(p[k])
    return np.array(out).reshape(-1, 2)


def clip_box(p, lo, hi, a, b):
    for f in ((1, 0, -lo), (-1, 0, hi), (0, 1, -a), (0, -1, b)):
        p = clip(p, f)
    return p


def moments(p, clon):
    """area, integral of (lon - clon) cos(lat), integral of lat over a polygon (unit sphere, positive);
    area and latitude exact, longitude by the trapezoidal rule along the sides (Jones 1999)"""
    if len(p) < 3:
        return 0.0, 0.0, 0.0
    x, y = p[:, 0], p[:, 1]
    x2, y2 = np.roll(x, -1), np.roll(y, -1)
    area = -sph.edge(x, y, x2, y2).sum()
    # integral of lat cos(lat) d lat = cos(lat) + lat sin(lat), along a straight side
    dx, m, h = x2 - x, 0.5 * (y + y2), 0.5 * (y2 - y)
    s = np.where(np.abs(h) < 1e-7, 1 - h * h / 6, np.sin(h) / np.where(h == 0, 1, h))
    dc = np.where(np.abs(h) < 1e-5, np.cos(m) / 3 * h * h * 0, 0)
    # mean of lat sin(lat) over the side: m sin(m) s + cos(m) (s - cos(h)) ; mean of cos(lat): cos(m) s
    clat = -(dx * (m * np.sin(m) * s + np.cos(m) * (s - np.cos(h)) + np.cos(m) * s)).sum()
    F, F2 = 0.5 * (np.cos(y) * np.sin(y) + y), 0.5 * (np.cos(y2) * np.sin(y2) + y2)
    cl = -(dx * 0.5 * ((x - clon) * F + (x2 - clon) * F2)).sum()
    return area, cl, clat


def cells(lon, lat):
    """4-corner lists (ny, nx, 4) of a corner grid in degrees -> radians"""
    f = lambda a: np.stack([a[:-1, :-1], a[:-1, 1:], a[1:, 1:], a[1:, :-1]], -1) * D
    return f(np.asarray(lon)), f(np.asarray(lat))


# ---- polygons with great circle sides (unit vectors) ----

def gc_clip(p, q):
    """part of the spherical polygon p inside the convex polygon q (both counterclockwise from outside)"""
    m = len(q)
    for k in range(m):
        nrm = np.cross(q[k], q[(k + 1) % m])
        l = np.linalg.norm(nrm)
        if l < 1e-12:
            continue
        nrm = nrm / l
        if len(p) == 0:
            return p
        s = p @ nrm
        s = np.where(np.abs(s) < 1e-14, 0, s)
        out = []
        for i in range(len(p)):
            a, b = s[i - 1], s[i]
            if (a < 0) != (b < 0):
                t = a / (a - b)
                v = p[i - 1] + t * (p[i] - p[i - 1])
                out.append(v / np.linalg.norm(v))
            if b >= 0:
                out.append(p[i])
        p = np.array(out).reshape(-1, 3)
    return p


def gc_poly_area(p):
    if len(p) < 3:
        return 0.0
    return float(sum(sph.tri(p[0], p[k], p[k + 1]) for k in range(1, len(p) - 1)))
