"""Grid tiles and mosaic files as FMS tools read them, written without the code under test."""
import os
import numpy as np
from . import ncio, sph
from .ncio import DS


def chars(s, n=255):
    return np.array(list(s.ljust(n, "\0").encode("latin1")), "u1").view("S1")


def text(v):
    return [bytes(r.tobytes()).split(b"\0")[0].decode().strip() for r in np.atleast_2d(v)]


def hgrid(path, x, y, tile="tile1", dx=None, dy=None, area=None, angle=None, gattrs=None, fmt="NETCDF3_64BIT_OFFSET"):
    """supergrid tile file"""
    ds = DS()
    ny, nx = np.array(x.shape) - 1
    for k, n in (("string", 255), ("nx", nx), ("ny", ny), ("nxp", nx + 1), ("nyp", ny + 1)):
        ds.add_dim(k, int(n))
    ds.add("tile", "char", ("string",), chars(tile), standard_name="grid_tile_spec", geometry="spherical")
    ds.add("x", "double", ("nyp", "nxp"), x, standard_name="geographic_longitude", units="degree_east")
    ds.add("y", "double", ("nyp", "nxp"), y, standard_name="geographic_latitude", units="degree_north")
    for k, dims, v in (("dx", ("nyp", "nx"), dx), ("dy", ("ny", "nxp"), dy), ("area", ("ny", "nx"), area), ("angle_dx", ("nyp", "nxp"), angle)):
        if v is not None:
            ds.add(k, "double", dims, v)
    for k, v in (gattrs or {}).items():
        ds.attrs[k] = v
    ds.write(path, fmt)


def mosaic(path, name, files, tiles, location="./", contacts=(), gattrs=None):
    """contacts: [(tile1, tile2, 'i:i,j:j::i:i,j:j')] with tile numbers from 0"""
    ds = DS()
    ds.add_dim("ntiles", len(files))
    if contacts:
        ds.add_dim("ncontact", len(contacts))
    ds.add_dim("string", 255)
    ds.add("mosaic", "char", ("string",), chars(name), standard_name="grid_mosaic_spec", children="gridtiles", contact_regions="contacts", grid_descriptor="")
    ds.add("gridlocation", "char", ("string",), chars(location), standard_name="grid_file_location")
    ds.add("gridfiles", "char", ("ntiles", "string"), np.array([chars(f) for f in files]))
    ds.add("gridtiles", "char", ("ntiles", "string"), np.array([chars(t) for t in tiles]))
    if contacts:
        ds.add("contacts", "char", ("ncontact", "string"), np.array([chars("%s:%s::%s:%s" % (name, tiles[a], name, tiles[b])) for a, b, _ in contacts]),
               standard_name="grid_contact_spec", contact_type="boundary", alignment="true", contact_index="contact_index", orientation="orient")
        ds.add("contact_index", "char", ("ncontact", "string"), np.array([chars(s) for _, _, s in contacts]),
               standard_name="starting_ending_point_index_of_contact")
    for k, v in (gattrs or {}).items():
        ds.attrs[k] = v
    ds.write(path)
