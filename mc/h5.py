"""Content of an output file, as plain comparable values."""
import core
import h5py
import numpy as np

VOLATILE = {"file_name", "file_time"}


def value(ds):
    v = ds[()]
    if isinstance(v, bytes):
        return ("s", v.decode())
    if isinstance(v, str):
        return ("s", v)
    v = np.asarray(v)
    if v.dtype.kind == "O":
        return ("s", tuple(x.decode() if isinstance(x, bytes) else str(x)
                           for x in v.ravel()), v.shape)
    if v.dtype.kind == "S":
        return ("s", tuple(x.decode() for x in v.ravel()), v.shape)
    if v.dtype.names:
        return ("t", tuple(v.dtype.names), tuple(
            tuple(v[n].tolist()) for n in v.dtype.names))
    return (v.dtype.kind if v.dtype.kind != "u" else "i",
            tuple(repr(x) for x in v.ravel().tolist()), v.shape)


def header(ds):
    """meaning of the text that describes a table"""
    from astropy.table import meta

    lines = [core._s(x) for x in np.asarray(ds[()]).ravel()]
    return ("header", core._norm(meta.get_header_from_yaml(lines)))


def walk(group, skip):
    out = []
    for k in group:
        if k in skip:
            continue
        it = group[k]
        if isinstance(it, h5py.Group):
            out.append((k, walk(it, skip)))
        else:
            if k.endswith("__table_column_meta__"):
                out.append((k, header(it)))
            else:
                out.append((k, value(it)))
    return tuple(out)


def tree(path, skip=VOLATILE):
    with h5py.File(path, "r") as f:
        attrs = tuple(sorted((k, str(v)) for k, v in f.attrs.items()
                             if k not in skip))
        return (("@", attrs),) + walk(f, skip)


def difference(a, b, where=""):
    """first difference of two trees, or None"""
    if a == b:
        return None
    ga = isinstance(a, tuple) and a and isinstance(a[0], tuple)
    gb = isinstance(b, tuple) and b and isinstance(b[0], tuple)
    if not (ga and gb):
        return "%s: %s, expected %s" % (where, str(a)[:200], str(b)[:200])
    ka, kb = [x[0] for x in a], [x[0] for x in b]
    if ka != kb:
        return "%s: holds %s, expected %s" % (where or "/", ka, kb)
    for x, y in zip(a, b):
        d = difference(x[1], y[1], "%s/%s" % (where, x[0]))
        if d:
            return d
    return None
