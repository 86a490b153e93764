"""Plain writers for files in the formats the library reads

Nothing here uses the library: what a file holds is known from the arrays it
was written from.
"""
import os
import shutil
import tempfile
from contextlib import contextmanager

import numpy as np


@contextmanager
def scratch(prefix="vmon-"):
    """a directory that goes away"""
    d = tempfile.mkdtemp(prefix=prefix)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


NT = {'f': 'Float', 'i': 'Int', 'u': 'UInt'}


def xdmf_grid(base, nodes, fields, time=None, name="g", group="", infos=()):
    """one <Grid>; nodes: (x, y, z) arrays; fields: list of
    (name, vals[x, y, z(, comp)], center, disk) -> (xml, {h5 path: array})"""
    h5 = {}
    dims = " ".join(str(len(n)) for n in nodes[::-1])
    out = ['<Grid Name="%s" GridType="Uniform">' % name]
    if time is not None:
        out.append('<Time Type="Single" Value="%r" />' % float(time))
    for k, v in infos:
        out.append('<Information Name="%s" Value="%s" />' % (k, v))
    out.append('<Topology TopologyType="3DRectMesh" Dimensions="%s"/>' % dims)
    out.append('<Geometry GeometryType="VXVYVZ">')
    for ax, n in zip("XYZ", nodes):
        path = "%s/crds/%s" % (group, ax.lower())
        h5[path] = np.asarray(n)
        out.append('<DataItem Name="V%s" DataType="Float" Dimensions="%d" Format="HDF">'
                   '%s.h5:%s</DataItem>' % (ax, len(n), base, path))
    out.append('</Geometry>')
    for fname, vals, center, disk in fields:
        vals = np.asarray(vals)
        path = "%s/flds/%s" % (group, fname)
        if vals.ndim == 4:
            dat = np.transpose(vals, (2, 1, 0, 3))
            if disk == 'flat':
                dat = np.moveaxis(dat, -1, 0)
            kind = 'Vector'
        else:
            dat = np.transpose(vals, (2, 1, 0))
            kind = 'Scalar'
        h5[path] = np.ascontiguousarray(dat)
        out.append('<Attribute Name="%s" AttributeType="%s" Center="%s">'
                   '<DataItem Dimensions="%s" NumberType="%s" Precision="%d" '
                   'Format="HDF">%s.h5:%s</DataItem></Attribute>' % (
                       fname, kind, center.title(),
                       " ".join(str(s) for s in dat.shape), NT[dat.dtype.kind],
                       dat.dtype.itemsize, base, path))
    out.append('</Grid>')
    return "\n".join(out), h5


XHEAD = ("<?xml version='1.0' ?>\n<Xdmf xmlns:xi='http://www.w3.org/2001/XInclude' "
         "Version='2.0'>\n<Domain>\n")
XTAIL = "\n</Domain>\n</Xdmf>\n"


def write_h5(path, arrays, big_endian=False):
    import h5py
    with h5py.File(path, 'w') as f:
        for k, v in arrays.items():
            if big_endian and v.dtype.kind in 'fi':
                v = v.astype(v.dtype.newbyteorder('>'))
            f[k] = v


def write_xdmf(dirname, base, nodes, fields, time=None, infos=(), big_endian=False):
    """a single-grid xdmf + h5 pair, returns the xdmf's name"""
    xml, h5 = xdmf_grid(base, nodes, fields, time=time, infos=infos)
    write_h5(os.path.join(dirname, base + ".h5"), h5, big_endian)
    fn = os.path.join(dirname, base + ".xdmf")
    with open(fn, 'w') as f:
        f.write(XHEAD + xml + XTAIL)
    return fn
