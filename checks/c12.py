"""Merging scans puts each point at its place."""
import os
import numpy as np
import h5py
from lib.vp import Group, Discard
from lib import h5snap
from spectrocrunch.io import nxfs
from spectrocrunch.process import h5merge, nxprocess
from spectrocrunch.process.utils import create_task

ID = "C12"
LEVEL = "exploration"
RULE = (
    "1-6 scans of 1-3 dimensions, complete or interrupted at any point, with 0-2 detector dimensions of equal or different size, "
    "in one or more files, nested groups, links, scalars and texts; stacked, stacked along a positioner, tiled in any tile shape, "
    "by function, by task or by merged scan; non-trivial: more than one scan"
)


def map_shape(rng):
    """F-order: fast axis first"""
    nd = rng.choice([1, 2, 2, 2, 3])
    return tuple(rng.randint(1, 5) for _ in range(nd))


def points(rng, fshape, complete=False):
    """Number of points measured"""
    n = int(np.prod(fshape))
    line = int(np.prod(fshape[:-1]))
    if complete or rng.random() < 0.5 or n == line:
        return n
    return rng.randint(line, n)


def block(data, fshape, det):
    """Complete lines of the scan, slow axis first"""
    line = int(np.prod(fshape[:-1], dtype=int))
    nl = min(data.shape[0] // line, fshape[-1])
    b = data[: nl * line].reshape((nl,) + tuple(fshape[:-1][::-1]) + data.shape[1:])
    return b


def put(dest, b, off):
    dest[tuple(slice(o, o + n) for o, n in zip(off, b.shape))] = b


def expected_stack(datas, fshape, fill, det, no_stack):
    out = np.full((len(datas),) + fshape[::-1] + det, fill, dtype=datas[0].dtype)
    for i, d in enumerate(datas):
        b = block(d, fshape, det)
        put(out, b[None], (i,) + (0,) * b.ndim)
    return out[0] if no_stack else out


def expected_tile(datas, fshape, fill, det, tile):
    blocks = [block(d, fshape, det) for d in datas]
    nd = len(fshape)
    size = tuple(max(b.shape[k] for b in blocks) for k in range(nd))
    ctile = tile[::-1]
    out = np.full(tuple(t * s for t, s in zip(ctile, size)) + det, fill, dtype=datas[0].dtype)
    for i, b in enumerate(blocks):
        pos = np.unravel_index(i, ctile)
        put(out, b, tuple(p * s for p, s in zip(pos, size)) + (0,) * len(det))
    return out


def merge(c, rng):
    n = rng.choice([1, 2, 3, 4, 6])
    fshape = map_shape(rng)
    mapped = rng.random() < 0.8
    mode = rng.choice(["stack", "tile"])
    nscandim = rng.choice([1, 2]) if mapped else None
    ndet = rng.choice([0, 0, 1, 2]) if not mapped or nscandim == 1 else 0
    dets = [tuple(rng.randint(1, 4) for _ in range(ndet))] * n
    if ndet and rng.random() < 0.3:
        dets = [tuple(rng.randint(1, 4) for _ in range(ndet)) for _ in range(n)]
    det = tuple(np.max(dets, axis=0).tolist()) if ndet else ()
    dtype = rng.choice(["int32", "float64", "uint16", "float32"])
    fill = rng.choice([0, 7])
    npt = [points(rng, fshape) for _ in range(n)]
    if mapped and mode == "stack":
        npt[rng.randrange(n)] = int(np.prod(fshape))
    if not mapped:
        # already maps: slow axis first
        nscandim = len(fshape)
        npt = [int(np.prod(fshape))] * n
    names = ["a", "b"]
    datas = {}
    k = 1
    for nm in names:
        datas[nm] = []
        for i in range(n):
            shp = (npt[i],) + dets[i]
            d = np.arange(k, k + int(np.prod(shp))).astype(dtype).reshape(shp)
            k += d.size
            datas[nm].append(d)
    nested = rng.random() < 0.5
    one = rng.random() < 0.5
    scalars = mode == "stack" and rng.random() < 0.5
    files = []
    tile = None
    if mode == "tile":
        tile = [1] * len(fshape)
        while np.prod(tile) < n:
            tile[rng.randrange(len(tile))] += 1
        tile = tuple(tile)
    info = lambda: (mode, n, fshape, mapped, nscandim, dets, npt, dtype, fill, nested, tile, one)
    try:
        sources = []
        for i in range(n):
            p = os.path.join(c.dir, "src%d.h5" % (0 if one else i))
            if not (one and files):
                files.append(h5py.File(p, "w"))
            g = files[-1].create_group("scan%d" % i)
            g.attrs["NX_class"] = "NXentry"
            h = g.create_group("m") if nested else g
            for nm in names:
                d = datas[nm][i]
                if not mapped:
                    d = d.reshape(fshape[::-1] + dets[i])
                kw = {} if rng.random() < 0.7 else {"chunks": True, "compression": "gzip"}
                h.create_dataset(nm, data=d, fillvalue=np.dtype(dtype).type(fill), **kw)
            if nested:
                h.attrs["x"] = 5
            g["soft"] = h5py.SoftLink("/scan%d%s/a" % (i, "/m" if nested else ""))
            g["rel"] = h5py.SoftLink("m/b" if nested else "b")
            if scalars:
                h["title"] = "title %d" % i
                h["end_time"] = "end %d" % i
                h["num"] = 5.5 + i
            sources.append(g)
        if not one:
            for i in range(n):
                files[i].close()
            files = [h5py.File(os.path.join(c.dir, "src%d.h5" % i), "r") for i in range(n)]
            sources = [f["scan%d" % i] for i, f in enumerate(files)]
            dest = h5py.File(os.path.join(c.dir, "out.h5"), "w")
            files.append(dest)
        else:
            dest = files[0]
        shape_map = {(m,): fshape for m in npt} if mapped else {}
        if mapped and len(fshape) == 1:
            shape_map = rng.choice([shape_map, {}]) if len(set(npt)) == 1 else shape_map
        nostack = rng.random() < 0.5
        kw = {"tile_shape": tile} if mode == "tile" else {"no_stack_dimension": nostack}
        h5merge.merge_h5groups(dest, "merged", sources, shape_map, nscandim=nscandim, **kw)
        if not one:
            dest.flush()
            for f in files:
                f.close()
            dest = h5py.File(os.path.join(c.dir, "out.h5"), "r")
            files = [dest]
        m = dest["merged"]
        h = m["m"] if nested else m
        for nm in names:
            got = h[nm][()]
            if mode == "stack":
                e = expected_stack(datas[nm], fshape, fill, det, nostack and n == 1)
            else:
                e = expected_tile(datas[nm], fshape, fill, det, tile)
            c.require(got.shape == e.shape, mode + ":shape", lambda: (info(), got.shape, e.shape))
            c.require(got.dtype == e.dtype and np.array_equal(got, e), mode + ":values", lambda: (info(), got, e))
            c.event("points", int(got.size))
        c.require(np.array_equal(m["soft"][()], h["a"][()]) and np.array_equal(m["rel"][()], h["b"][()]), "links", info)
        c.require(m.get("soft", getlink=True).path.startswith("/merged"), "links:target", info)
        c.require(m.attrs["NX_class"] == "NXentry" and (not nested or h.attrs["x"] == 5), "attributes", info)
        if scalars:
            c.require(np.array_equal(h["num"][()], 5.5 + np.arange(n)), "scalars", info)
            for q, e in (("title", "title 0"), ("end_time", "end %d" % (n - 1))):
                v = h[q][()]
                v = v.decode() if isinstance(v, bytes) else v
                c.require(isinstance(v, str) and v == e, "texts", lambda: (info(), q, v))
        # sources are as before
        for i in range(n):
            for nm in names:
                with h5py.File(os.path.join(c.dir, "src%d.h5" % (0 if one else i)), "r+" if one else "r") as s:
                    v = s["scan%d/" % i + ("m/" if nested else "") + nm][()]
                c.require(np.array_equal(v.reshape(datas[nm][i].shape), datas[nm][i]), "source_modified", info)
        if n == 1:
            c.trivial()
        c.key("merge", repr(info()))
        c.event("merges")
    finally:
        for f in files:
            try:
                f.close()
            except Exception:
                pass


class Source(nxprocess.Task):
    def _parameters_defaults(self):
        super(Source, self)._parameters_defaults()
        self.required_parameters |= {"k"}

    def _execute(self):
        for name in DATA["groups"]:
            g = self.temp_nxresults.nxdata(name)
            for nm in ("a", "b"):
                g.add_signal(nm, data=DATA["data"][name, nm][self.parameters["k"]])


DATA = {}


def tasks(c, rng):
    n = rng.choice([1, 2, 3, 4])
    fshape = tuple(rng.randint(2, 5) for _ in range(2))
    mode = rng.choice(["stack", "tile"])
    how = rng.choice(["mesh", "fscan2d", "l2scan", "parser", "maps"])
    npt = [points(rng, fshape, how == "maps") for _ in range(n)]
    if mode == "stack":
        npt[rng.randrange(n)] = int(np.prod(fshape))
    groups = ["parameters"] + (["counters"] if rng.random() < 0.5 else [])
    DATA.clear()
    DATA["groups"] = groups
    DATA["data"] = {}
    k = 1
    flat = {}
    for g in groups:
        for nm in "ab":
            lst = []
            for m in npt:
                lst.append(np.arange(k, k + m).astype(float))
                k += m
            flat[g, nm] = lst
            DATA["data"][g, nm] = [d.reshape(fshape[::-1]) for d in lst] if how == "maps" else lst
    f, s = fshape
    title = {
        "mesh": "amesh f 0 1 %d s 0 1 %d 0.1" % (f - 1, s - 1),
        "fscan2d": "fscan2d s 0 1 %d f 0 1 %d 0.1 0.1" % (s, f),
        "l2scan": "l2scan f 0 1 %d s 0 1 %d 0.1" % (f, s - 1),
        "parser": "custom %dx%d" % (f, s),
        "maps": "ascan f 0 1",
    }[how]
    pos = mode == "stack" and rng.random() < 0.6
    positions = [rng.uniform(-5, 5) for _ in range(n)]
    if rng.random() < 0.3:
        positions = [float(rng.randint(0, 2)) for _ in range(n)]
    root = nxfs.Path("/", h5file=os.path.join(c.dir, "a.h5"))
    deps = []
    for i in range(n):
        e = root["e%d" % i].nxentry()
        e["title"].write(data=title)
        if pos:
            p = e.positioners()
            p.add_axis("mot", positions[i], units="um")
        t = create_task(method="src", _task=Source, dependencies=[e], k=i, name="x")
        t.run()
        c.require(t.done, "source_task", "")
        deps.append(t)
    kw = {}
    if how == "parser":
        kw["shape_parser"] = lambda cmd: tuple(int(x) for x in cmd.split(" ")[1].split("x"))
    if pos:
        kw["stack_positioner"] = "mot"
    tile = None
    if mode == "tile":
        tile = [1, 1]
        while np.prod(tile) < n:
            tile[rng.randrange(2)] += 1
        tile = tuple(tile)
        kw["tile_shape"] = tile
    info = lambda: (mode, n, fshape, npt, how, title, groups, pos and positions, tile)
    before = h5snap.snapshot(os.path.join(c.dir, "a.h5"))
    t = create_task(method=mode, dependencies=deps, outputparent=root["out"].nxentry(), name="m", **kw)
    t.run()
    c.require(t.done, "task:" + mode, info)
    order = np.argsort(positions, kind="stable") if pos else range(n)
    after = h5snap.snapshot(os.path.join(c.dir, "a.h5"))
    c.require(all(after.get(k) == v for k, v in before.items() if k.startswith("/e")), "source_modified", info)
    with h5py.File(os.path.join(c.dir, "a.h5"), "r") as h:
        res = h[t.output.path]["results"]
        c.require(sorted(res) == sorted(groups), "task:groups", lambda: (info(), list(res)))
        for g in groups:
            sig = [res[g].attrs["signal"]] + list(res[g].attrs.get("auxiliary_signals", []))
            c.require(sorted(sig) == ["a", "b"], "task:signals", lambda: (info(), sig))
            for nm in "ab":
                got = res[g][nm][()]
                if mode == "stack":
                    e = expected_stack([flat[g, nm][i] for i in order], fshape, 0, (), n == 1 and not pos)
                    ties = pos and len(set(positions)) < n
                else:
                    e = expected_tile(flat[g, nm], fshape, 0, (), tile)
                    ties = False
                c.require(got.shape == e.shape, "task:shape:" + mode, lambda: (info(), got.shape, e.shape))
                if ties:
                    got, e = np.sort(got, axis=0), np.sort(e, axis=0)
                c.require(np.array_equal(got, e), "task:values:" + mode, lambda: (info(), got, e))
                c.event("points", int(got.size))
            axes = list(res[g].attrs["axes"]) if "axes" in res[g].attrs else None
            if pos:
                c.require(axes is not None and axes[0] == "mot" and len(axes) == 3, "task:axes", lambda: (info(), axes))
                c.require(np.allclose(res[g]["mot"][()], np.sort(positions)), "task:positions", lambda: (info(), res[g]["mot"][()]))
            if pos or (mode == "tile") and all(m == npt[0] == f * s for m in npt):
                shp = res[g]["a"].shape
                for ax, m in zip(axes, shp):
                    c.require(res[g][ax].shape == (m,), "task:axis_size", lambda: (info(), ax, res[g][ax].shape, shp))
                    if ax != "mot":
                        c.require(np.array_equal(res[g][ax][()], np.arange(m)), "task:axis", lambda: (info(), ax))
    c.key("task", repr(info()))
    c.event("tasks")
    if n == 1:
        c.trivial()


def scans(c, rng):
    """Merged scans by URI"""
    n = rng.randint(1, 4)
    fshape = rng.randint(2, 5), rng.randint(2, 5)
    mesh = rng.random() < 0.6
    npt = [int(np.prod(fshape)) if not i or rng.random() < 0.5 else rng.randint(fshape[0], int(np.prod(fshape))) for i in range(n)]
    nchan = rng.choice([0, 3])
    uris = []
    A, B = [], []
    title = rng.choice(["l2scan f 0 1 %d s 0 1 %d 0.1" % (fshape[0], fshape[1] - 1)])
    withtitle = mesh or rng.random() < 0.5
    one = rng.random() < 0.5
    for i in range(n):
        p = os.path.join(c.dir, "s%d.h5" % (0 if one else i))
        with h5py.File(p, "a") as f:
            g = f.create_group("%d.1" % (i + 1))
            if withtitle:
                g["title"] = title
            A.append(c.np.randint(1, 1000, npt[i]).astype(float))
            B.append(c.np.randint(1, 1000, (npt[i], nchan) if nchan else (npt[i],)))
            g["measurement/a"] = A[-1]
            g["measurement/b"] = B[-1]
            uris.append("%s::/%d.1" % (p, i + 1))
    cls = h5merge.MergedBlissMesh if mesh else h5merge.MergedBlissScan
    kw = {}
    fn = None
    if rng.random() < 0.5:
        fn = kw["filename"] = os.path.join(c.dir, "out.h5")
    if rng.random() < 0.5:
        kw["name"] = "mine"
    info = lambda: (n, fshape, mesh, npt, nchan, title, kw, one)
    if not mesh and len(set(npt)) > 1:
        # different sizes without map
        fs = (max(npt),)
    else:
        fs = fshape if mesh else (npt[0],)
    nd = len(os.listdir(c.dir))
    with cls(uris, **kw) as merged:
        m = merged.merged_scan
        for nm, d in (("a", A), ("b", B)):
            e = expected_stack(d, fs, 0, d[0].shape[1:], False)
            got = m["measurement"][nm][()]
            c.require(got.shape == e.shape, "scan:shape", lambda: (info(), got.shape, e.shape))
            c.require(np.array_equal(got, e), "scan:values", lambda: (info(), got, e))
            c.event("points", int(got.size))
    if fn:
        with h5py.File(fn, "r") as f:
            got = f[kw.get("name", "merged")]["measurement/b"][()]
            c.require(np.array_equal(got, e), "scan:saved", info)
    else:
        c.require(len(os.listdir(c.dir)) == nd, "scan:left_files", info)
    c.key("scan", repr(info()))
    c.event("scans")


GROUPS = [
    Group("merge", merge, 1200, 30000),
    Group("tasks", tasks, 120, 3000),
    Group("scans", scans, 500, 12000),
]
MIN_EVENTS = {"merges": 500, "tasks": 60, "scans": 200, "points": 10000}
