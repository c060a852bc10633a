"""Spherical geometry used by the grid checks (independent of the code under test)."""
import numpy as np

R = 6371000.0
D = np.pi / 180


def xyz(lon, lat):
    """degrees -> unit vectors (..., 3)"""
    lon, lat = np.asarray(lon, "f8") * D, np.asarray(lat, "f8") * D
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def lonlat(v):
    v = np.asarray(v)
    n = v / np.linalg.norm(v, axis=-1, keepdims=True)
    return np.arctan2(n[..., 1], n[..., 0]) / D, np.arctan2(n[..., 2], np.hypot(n[..., 0], n[..., 1])) / D


def angle(a, b):
    """angle between vectors (radians), accurate for small and large ones"""
    c = np.linalg.norm(np.cross(a, b), axis=-1)
    return np.arctan2(c, (a * b).sum(-1))


def tri(a, b, c):
    """signed solid angle of spherical triangles"""
    n = (a * np.cross(b, c)).sum(-1)
    d = 1 + (a * b).sum(-1) + (b * c).sum(-1) + (c * a).sum(-1)
    return 2 * np.arctan2(n, d)


def quad(a, b, c, d):
    """area (steradians) of spherical quadrilaterals with great circle edges"""
    return np.abs(tri(a, b, c) + tri(a, c, d))


def cells(v):
    return v[:-1, :-1], v[:-1, 1:], v[1:, 1:], v[1:, :-1]


def gc_area(lon, lat):
    """areas (m2) of the cells of a vertex grid, great circle edges"""
    return quad(*cells(xyz(lon, lat))) * R * R


def gc_dx(lon, lat):
    v = xyz(lon, lat)
    return angle(v[:, :-1], v[:, 1:]) * R


def gc_dy(lon, lat):
    v = xyz(lon, lat)
    return angle(v[:-1], v[1:]) * R


def edge(lo1, la1, lo2, la2):
    """integral of sin(lat) d lon along a straight line in lon-lat (radians)"""
    dl = lo2 - lo1
    h = (la2 - la1) / 2
    s = np.where(np.abs(h) < 1e-7, 1 - h * h / 6, np.sin(h) / np.where(h == 0, 1, h))
    return dl * np.sin((la1 + la2) / 2) * s


def ll_area(lon, lat):
    """areas (m2) of the cells of a vertex grid whose edges are straight in lon-lat; longitudes made
    continuous around each cell.  Not for cells touching or containing a pole other than lon-lat boxes."""
    lon, lat = np.asarray(lon, "f8") * D, np.asarray(lat, "f8") * D
    xs, ys = [lon[:-1, :-1], lon[:-1, 1:], lon[1:, 1:], lon[1:, :-1]], cells(lat)
    x = [xs[0]]
    for k in range(1, 4):
        d = xs[k] - xs[0]
        x.append(xs[0] + d - 2 * np.pi * np.round(d / (2 * np.pi)))
    s = 0
    for k in range(4):
        m = (k + 1) % 4
        s = s - edge(x[k], ys[k], x[m], ys[m])
    return np.abs(s) * R * R


def box(lon1, lat1, lon2, lat2):
    return np.abs(lon2 - lon1) * D * np.abs(np.sin(lat2 * D) - np.sin(lat1 * D)) * R * R


def close(a, b, rtol, atol=0.0):
    a, b = np.asarray(a, "f8"), np.asarray(b, "f8")
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def worst(a, b):
    a, b = np.asarray(a, "f8"), np.asarray(b, "f8")
    if a.shape != b.shape:
        return "shapes %s and %s" % (a.shape, b.shape)
    d = np.abs(a - b)
    d = np.where(np.isfinite(d), d, np.inf)
    i = np.unravel_index(int(np.argmax(d)), a.shape)
    return "%r at %s, expected %r" % (float(a[i]), tuple(int(k) for k in i), float(b[i]))
