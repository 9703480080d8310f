"""Independent observation of HDF5 files (h5py only)."""
import h5py
import numpy as np

VOLATILE_NAMES = {"date", "end_time", "start_time"}
VOLATILE_ATTRS = {"file_update_time", "file_time"}


def freeze(v):
    if isinstance(v, bytes):
        return v.decode("utf8", "replace")
    if isinstance(v, np.ndarray):
        return (str(v.dtype), v.shape, v.tobytes() if v.dtype.kind != "O" else tuple(freeze(x) for x in v.ravel()))
    if isinstance(v, np.generic):
        return (str(v.dtype), v.tobytes())
    return v


def snapshot(filename, root="/", volatile=False):
    """{path: (kind, content, attributes)}; time stamps are left out"""
    out = {}

    def attrs(node):
        return tuple(
            sorted((k, freeze(v)) for k, v in node.attrs.items() if volatile or k not in VOLATILE_ATTRS)
        )

    def visit(g):
        for k in g.keys():
            path = g.name.rstrip("/") + "/" + k
            lnk = g.get(k, getlink=True)
            if isinstance(lnk, h5py.SoftLink):
                out[path] = ("soft", lnk.path, ())
            elif isinstance(lnk, h5py.ExternalLink):
                out[path] = ("external", (lnk.filename, lnk.path), ())
            else:
                n = g[k]
                if isinstance(n, h5py.Group):
                    out[path] = ("group", None, attrs(n))
                    visit(n)
                elif volatile or k not in VOLATILE_NAMES:
                    out[path] = ("dataset", freeze(n[()]), attrs(n))
                else:
                    out[path] = ("dataset", "time", attrs(n))

    with h5py.File(filename, "r", locking=False) as f:
        if root not in f:
            return None
        out["."] = ("group", None, attrs(f[root]))
        visit(f[root])
    return out


def diff(a, b):
    if a is None or b is None:
        return "one side is missing"
    lines = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            lines.append("{}: {} -> {}".format(k, repr(a.get(k))[:150], repr(b.get(k))[:150]))
    return "\n".join(lines[:12])
