"""Alignment recovers the displacement and never misplaces, loses or invents pixels."""
import os
import numpy as np
import h5py
from lib.vp import Group, Discard
from lib import h5snap
from checks.c31 import write_edf, read_edf
from spectrocrunch.align.alignFFT import alignFFT
from spectrocrunch.align.alignSimple import alignMin, alignMax, alignCentroid, alignGaussMax
from spectrocrunch.align.types import transformationType

ID = "C11"
LEVEL = "exploration"
RULE = (
    "stacks of 2-5 windows on a random scene with a marker, displaced by known translations (integer, or subpixel for the "
    "methods that claim it); 1-3 datasets aligned on one of them, any stack dimension, images and vectors; fixed or "
    "pair-wise reference, pad/crop/roi/pre-transformation/redo, arrays, HDF5 and EDF files as input or output; every output "
    "pixel is compared with the scene; non-trivial: some displacement"
)
METHODS = {"max": alignMax, "min": alignMin, "centroid": alignCentroid, "gaussmax": alignGaussMax, "fft": alignFFT}


class Case:
    """Windows on scenes"""

    def __init__(self, c, rng, method, integer=True):
        self.method = method
        self.n = n = rng.randint(2, 5)
        self.vector = rng.choice([None, None, None, 0, 1])
        m = self.m = 4
        size = [rng.randint(20, 26), rng.randint(20, 30)]
        if method == "fft" or not integer:
            size = [s + 10 for s in size]
        if self.vector is not None:
            size[self.vector] = 1
        self.size = size
        step = 2 if integer else 1.5
        t = c.np.uniform(-step, step, (n, 2))
        if integer:
            t = np.round(t)
        if rng.random() < 0.1:
            t[:] = 0
        if self.vector is not None:
            t[:, self.vector] = 0
        # window i starts at pad+t[i] in the scene
        self.t = t
        self.P = P = 12
        shape = [s + (0 if s == 1 else 2 * P) for s in size]
        self.off = np.array([0 if s == 1 else P for s in size])
        self.nsets = rng.randint(1, 3)
        self.ref = rng.randrange(self.nsets)
        self.scenes = []
        yy, xx = np.indices(shape).astype(float)
        cen = [o + (s - 1) / 2 + (rng.randint(-3, 3) if s > 1 else 0) for o, s in zip(self.off, size)]
        if integer:
            cen = [int(x) for x in cen]
        self.cen = cen
        for j in range(self.nsets):
            noise = c.np.randint(10, 60, shape).astype(float)
            if j == self.ref:
                if method in ("max", "min"):
                    noise[tuple(cen)] = 100 if method == "max" else 1
                else:
                    sy, sx = rng.choice([1.6, 2.0, 2.5]), rng.choice([1.6, 2.0, 2.5])
                    self.sig = sy, sx
                    noise = self.blob(yy, xx)
            self.scenes.append(noise)
        self.integer = integer
        self.stackdim = rng.choice([0, 1, 2])
        self.dtype = rng.choice(["float32", "float32", "float64"]) if method not in ("max", "min") or not integer else rng.choice(["float32", "float64", "int32", "uint16"])
        self.arrays = []
        for j, s in enumerate(self.scenes):
            if integer or j != self.ref:
                imgs = [self.window(s, i) for i in range(n)]
            else:
                y, x = np.indices(size).astype(float)
                imgs = [self.blob(y + self.off[0] + t[i, 0], x + self.off[1] + t[i, 1]) for i in range(n)]
            self.arrays.append(np.stack(imgs, axis=self.stackdim).astype(self.dtype))

    def blob(self, yy, xx):
        sy, sx = self.sig
        v = 1000 * np.exp(-((yy - self.cen[0]) ** 2) / (2 * sy**2) - (xx - self.cen[1]) ** 2 / (2 * sx**2))
        return v

    def window(self, s, i):
        a = [int(self.off[k] + round(self.t[i, k])) for k in (0, 1)]
        return s[a[0] : a[0] + self.size[0], a[1] : a[1] + self.size[1]]


def make_source(c, rng, cs):
    kind = rng.choice(["arrays", "arrays", "h5file", "h5group", "h5list", "edf"])
    names = ["s%d" % j for j in range(cs.nsets)]
    if kind == "arrays":
        return [a.copy() for a in cs.arrays], None, kind, None
    if kind == "edf":
        d = os.path.join(c.dir, "in")
        os.makedirs(d)
        files = []
        for n, a in zip(names, cs.arrays):
            files.append(["%s_%d.edf" % (n, i) for i in range(cs.n)])
            for i, f in enumerate(files[-1]):
                write_edf(os.path.join(d, f), np.take(a, i, axis=cs.stackdim))
        return d, files, kind, None
    p = os.path.join(c.dir, "in" + rng.choice([".h5", ".nxs", ".hdf5"]))
    with h5py.File(p, "w") as f:
        for n, a in zip(names, cs.arrays):
            f["grp/" + n] = a
    if kind == "h5file":
        return p, ["grp/" + n for n in names], kind, p
    f = h5py.File(p, "r")
    if kind == "h5group":
        return f["grp"], names, kind, f
    return [f["grp"][n] for n in names], None, kind, f


def outdtype(cs):
    return (np.float32(1) * np.dtype(cs.dtype).type(1)).dtype


def make_dest(c, rng, cs):
    """dest, destlist, ext, reader(list of stacks)"""
    kind = rng.choice(["arrays", "arrays", "h5file", "h5group", "h5list", "edf"])
    names = ["o%d" % j for j in range(cs.nsets)]
    dt = outdtype(cs)
    sd = cs.stackdim
    if kind == "arrays":
        out = [np.zeros(1, dtype=dt) for _ in range(cs.nsets)]
        return out, None, None, (lambda: [a.copy() for a in out]), kind, None
    if kind == "edf":
        d = os.path.join(c.dir, "out")
        nd = len(str(cs.n))

        def read():
            r = []
            for n in names:
                fs = [os.path.join(d, "%s_%0*d.edf" % (n, nd, i)) for i in range(cs.n)]
                r.append(np.stack([read_edf(f)[0] for f in fs], axis=sd))
            return r

        return d, names, ".edf", read, kind, None
    p = os.path.join(c.dir, "out.h5")
    if kind == "h5file":
        ext = rng.choice(["", "_a"])
        o = [n + ext for n in names]

        def read():
            with h5py.File(p, "r") as f:
                return [f[n][()] for n in o]

        return p, names, ext, read, kind, p
    f = h5py.File(p, "a")
    if kind == "h5group":
        return f, names, "", (lambda: [f[n][()] for n in names]), kind, f
    ds = [f.create_dataset(n, (1, 1, 1), maxshape=(None,) * 3, dtype=dt, chunks=(4, 4, 4)) for n in names]
    return ds, None, None, (lambda: [d[()] for d in ds]), kind, f


def check_output(c, cs, o, opt, out, info, rng):
    """Every pixel of every image of every dataset"""
    n, size = cs.n, cs.size
    exact = cs.integer and cs.method in ("max", "min")
    tolc = (0.08 if cs.method == "fft" else 2e-3) if cs.integer else 0.25
    cofs = o.absolute_cofs(homography=True, include_pre=True)
    cyx = np.array([[m[1, 2], m[0, 2]] for m in cofs])
    G = cyx + cs.t
    c.require(
        np.all(np.abs(G - G[0]) <= tolc * (1 if opt["ref"] is not None or not cs.n else cs.n)),
        "%s:displacement" % cs.method,
        lambda: (info(), (cyx - cyx[0]).tolist(), (cs.t[0] - cs.t).tolist()),
    )
    for m in cofs:
        c.require(np.array_equal(m[:, :2], np.eye(3)[:, :2]), "cof:not_translation", info)
    c.event("displacements", n)
    if not exact:
        # the marker is at the same place in each image
        for j, a in enumerate(out):
            c.require(a.ndim == 3 and a.shape[cs.stackdim] == n, "output:shape", lambda: (info(), a.shape))
        if cs.integer:
            ims = [np.take(out[cs.ref], i, axis=cs.stackdim) for i in range(n)]
            for im in ims[1:]:
                ok = ~np.isnan(im) & ~np.isnan(ims[0])
                c.require(np.allclose(im[ok], ims[0][ok], atol=1000 * 0.05), "%s:images_differ" % cs.method, lambda: (info(), np.abs(im - ims[0])[ok].max()))
        return
    # frame of the output: images are windows [t, t+size) of the scene
    G = np.round(G[0] * 2) / 2
    lo, hi = cs.t.min(axis=0), cs.t.max(axis=0)
    pre = opt["pre"] is not None
    resized = opt["pad"] or opt["crop"]
    if opt["pad"]:
        eshape = [int(s + h - l) for s, l, h in zip(size, lo, hi)]
    elif opt["crop"]:
        eshape = [int(s - (h - l)) for s, l, h in zip(size, lo, hi)]
    else:
        eshape = list(size)
    for j, a in enumerate(out):
        shp = list(np.delete(a.shape, cs.stackdim)) if a.ndim == 3 else None
        if not pre:
            c.require(shp == eshape and a.shape[cs.stackdim] == n, "output:shape", lambda: (info(), a.shape, eshape))
    # position in the scene of output pixel (0,0)
    if opt["pad"]:
        O = lo
    elif opt["crop"]:
        O = hi
    else:
        O = G
    if pre:
        # extension of the frame by the pre-transformation is not specified: find the frame from the axes
        return
    # axes with a random first value and steps
    uniform = rng.random() < 0.5
    given = []
    for k in cs.arrays[0].shape:
        steps = np.full(k, rng.choice([2.0, -0.5, -1.0])) if uniform else rng.choice([-1, 1]) * c.np.uniform(0.1, 3, k)
        given.append(rng.uniform(-10, 10) + np.concatenate([[0], np.cumsum(steps)[:-1]]))
    before = [x.copy() for x in given]
    axes = list(o.transform_axes(given))
    c.require(all(np.array_equal(x, y) for x, y in zip(given, before)), "axes:modified", info)
    c.require(np.array_equal(axes[cs.stackdim], given[cs.stackdim]), "axes:stack", info)
    del axes[cs.stackdim], given[cs.stackdim]
    tref = cs.t[0 if opt["ref"] is None else opt["ref"]]
    if resized:
        for k in (0, 1):
            g = given[k]
            ind = np.arange(eshape[k]) + (O[k] - tref[k])
            if len(g) == 1:
                if np.any(ind != 0):
                    continue
                e = g
            elif uniform:
                e = g[0] + ind * (g[1] - g[0])
            elif np.array_equal(ind, np.round(ind)):
                # the steps at the ends are extended
                e = np.interp(ind, np.arange(len(g)), g)
                e = np.where(ind < 0, g[0] + ind * (g[1] - g[0]), e)
                e = np.where(ind > len(g) - 1, g[-1] + (ind - len(g) + 1) * (g[-1] - g[-2]), e)
            else:
                continue
            c.require(np.allclose(axes[k], e), "axes", lambda: (info(), k, axes[k], e))
    nexp = 0
    for j, a in enumerate(out):
        s = cs.scenes[j].astype(outdtype(cs))
        for i in range(n):
            im = np.take(a, i, axis=cs.stackdim)
            e = np.full(eshape, np.nan)
            # pixels (y,x) of the output are at scene position O+(y,x)
            for q in [np.array([0, 0])] if np.all(O == np.round(O)) else []:
                y, x = np.indices(eshape)
                yw, xw = y + O[0] - cs.t[i, 0], x + O[1] - cs.t[i, 1]
                ok = (yw >= 0) & (yw <= size[0] - 1) & (xw >= 0) & (xw <= size[1] - 1)
                ys, xs = (y + O[0] + cs.off[0]).astype(int), (x + O[1] + cs.off[1]).astype(int)
                e[ok] = s[ys[ok], xs[ok]]
                good = np.isnan(im) == np.isnan(e)
                c.require(good.all(), "output:lost" if (np.isnan(im) & ok).any() else "output:invented", lambda: (info(), j, i, np.isnan(im).sum(), (~ok).sum()))
                c.require(np.allclose(im[ok], e[ok], rtol=1e-5), "output:misplaced", lambda: (info(), j, i, im, e))
                nexp += ok.sum()
    c.event("pixels", int(nexp))


def integer(c, rng):
    method = rng.choice(["max", "max", "min", "centroid", "gaussmax", "fft"])
    run(c, rng, Case(c, rng, method, True))


def subpixel(c, rng):
    method = rng.choice(["gaussmax", "fft"])
    cs = Case(c, rng, method, False)
    run(c, rng, cs)


def run(c, rng, cs):
    src, srcl, skind, sh = make_source(c, rng, cs)
    dest, destl, ext, read, dkind, dh = make_dest(c, rng, cs)
    decoy = None
    try:
        o = METHODS[cs.method](src, srcl, dest, destl, ext, stackdim=cs.stackdim, overwrite=True, transfotype=transformationType.translation)
        log = []
        info = lambda: (cs.method, cs.integer, cs.n, cs.size, cs.t.tolist(), cs.stackdim, cs.dtype, cs.nsets, cs.ref, skind, dkind, log)
        # files keep their shape
        fixedshape = dkind in ("h5file", "h5group")
        nruns = 1 if fixedshape or dkind == "h5list" else rng.choice([1, 1, 2, 3])
        for _ in range(nruns):
            opt = {"ref": rng.choice([None, 0, cs.n - 1, rng.randrange(cs.n)]), "pad": rng.random() < 0.4, "crop": rng.random() < 0.4, "onraw": rng.random() < 0.5, "roi": None, "pre": None, "raw": None}
            if rng.random() < 0.5:
                def rg(s, k):
                    if s == 1:
                        return rng.choice([(0, 1), (None, None)])
                    return rng.choice([(1, -1), (0, None), (None, s - 1), (2, s - 2), (None, None)])
                opt["roi"] = rg(cs.size[0], 0), rg(cs.size[1], 1)
            if rng.random() < 0.2 and cs.integer:
                opt["pre"] = [[0 if cs.size[k] == 1 else rng.randint(-1, 1) for k in (1, 0)] for _ in range(cs.n)]
            if rng.random() < 0.2:
                opt["raw"] = rng.choice([lambda im: im * 2 + 1, lambda im: im.copy()]) if cs.method in ("max", "min") else (lambda im: im * 2)
            log.append({k: v for k, v in opt.items()})
            kw = {}
            if opt["pre"]:
                pre = []
                for tx, ty in opt["pre"]:
                    tr = o.defaulttransform()
                    tr.settranslation(tx, ty)
                    pre.append(tr)
                kw["prealigntransfo"] = pre
            o.align(cs.ref, refimageindex=opt["ref"], onraw=opt["onraw"], pad=opt["pad"], crop=opt["crop"], roi=opt["roi"], rawcalc=opt["raw"], **kw)
            out = read()
            if opt["pad"]:
                opt["crop"] = False
            check_output(c, cs, o, opt, out, info, rng)
            if rng.random() < 0.25:
                o.align(cs.ref, redo=True)
                out2 = read()
                c.require(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(out, out2)), "redo", info)
                c.event("redo")
        # the source is untouched
        if skind == "arrays":
            c.require(all(np.array_equal(a, b) for a, b in zip(src, cs.arrays)), "source_modified", info)
        if not np.any(cs.t):
            c.trivial()
        c.key(cs.method, repr(cs.t), repr(log), cs.stackdim)
    finally:
        for h in (sh, dh):
            if isinstance(h, h5py.File):
                h.close()
        for x in ("source", "dest"):
            try:
                h = getattr(getattr(o, x), "handle", None)
                if isinstance(h, h5py.File):
                    h.close()
            except Exception:
                pass


GROUPS = [
    Group("integer", integer, 4000, 80000, minimum=3000),
    Group("subpixel", subpixel, 1500, 30000, minimum=1000),
]
MIN_EVENTS = {"pixels": 100000, "displacements": 5000, "redo": 200}
