"""Full-field XAS: transmission images go in as frames with dark current, absorbance stacks come out."""
import copy
import os
import numpy as np
from lib.vp import Group, Discard
from checks.c24 import close
from checks.c31 import write_edf
from spectrocrunch.pipelines import id21_ffxas
from spectrocrunch.pipelines.run import run_sequential
from spectrocrunch.process import nxresult
from spectrocrunch.process.utils import create_task
from spectrocrunch.io import nxfs

ID = "C35"
LEVEL = "exploration"
RULE = (
    "frames of random absorbance, beam, dark patterns, exposure times, frame numbers, energies in any order, several files per energy, "
    "flat fields before/after, camera regions, roi and rebinning in any combination, through the task and the whole pipeline"
)


def fmt(rng, x):
    return rng.choice(["%g", "%.4f", "%r"]) % float(x)


class Scan:
    """the measurement"""

    def __init__(self, c, rng):
        r = c.np
        self.n = rng.choice([1, 2, 3, 4, 5])
        self.shape = ny, nx = rng.randint(4, 12), rng.randint(4, 12)
        self.energies = [round(x, 4) for x in r.permutation(np.linspace(7, 7.5, self.n) + r.uniform(0, 0.05, self.n))]
        self.mu = r.uniform(0.05, 2.5, (self.n, ny, nx))
        self.beam = r.uniform(500, 2000, (self.n, ny, nx))
        self.drift = rng.choice([0, rng.uniform(0.02, 0.2)])
        self.zero, self.gain = rng.uniform(20, 120), rng.uniform(0, 40)
        self.texp = rng.sample([0.05, 0.1, 0.25, 0.4, 1.0, 2.0], rng.randint(1, 3))
        # exposures with dark frames; the other are dark according to the defaults
        self.measured = [t for t in self.texp if rng.random() < 0.7]
        self.pattern = {t: (r.uniform(-10, 10, (ny, nx)) if t in self.measured else np.zeros((ny, nx))) for t in self.texp}
        # Camera region
        self.region = rng.choice([None, (rng.randint(0, 50), rng.randint(0, 50))])
        self.regionfmt = rng.choice(["<%d,%d>-<%dx%d>", "%d,%d,%d,%d", "< %d, %d > - < %d x %d >"])
        self.noframes = rng.random() < 0.2
        self.dtype = rng.choice(["float64", "float32", "int32"])

    def dark(self, t):
        return self.zero + self.gain * t + self.pattern[t]

    def extra(self, t, nf, energy=None, other=False):
        h = [("exposure_time", "%g" % t)]
        if not self.noframes:
            h.append(("nb_frames", "%d" % nf))
        if energy is not None:
            h.append(("energy", energy))
        if self.region is not None:
            x, y = self.region
            if other:
                x += 1
            h.append(("roi", self.regionfmt % (x, y, self.shape[1], self.shape[0])))
        return h

    def write(self, path, img, *args, **kw):
        if self.dtype == "int32":
            img = np.rint(img * 100)
        write_edf(path, img.astype(self.dtype), self.extra(*args, **kw))


def roi1(rng, n):
    a, b = sorted(rng.sample(range(n + 1), 2))
    if b - a < 2:
        a, b = 0, n
    A = rng.choice([a, a - n if a else None, a])
    B = rng.choice([b, b - n if b < n else None, b])
    return (A, B), (a, b)


def ff(c, rng):
    s = Scan(c, rng)
    r = c.np
    ny, nx = s.shape
    src = os.path.join(c.dir, "data")
    nrad = rng.choice([1, 1, 2])
    radices = ["ff", "gg"][:nrad]
    paths = [os.path.join(src, x) for x in radices]
    if rng.random() < 0.5:
        paths = [src] * nrad
    for p in paths:
        os.makedirs(p, exist_ok=True)
    scale = 100.0 if s.dtype == "int32" else 1.0
    beforeafter = rng.random() < 0.6
    method = rng.choice(["onload", "later", "none", "none"]) if rng.random() < 0.5 else rng.choice(["onload", "later"])
    # Dark frames
    for t in s.measured:
        for k in range(rng.randint(1, 3)):
            nf = 1 if s.noframes else rng.randint(1, 10)
            i = rng.randrange(nrad)
            s.write(os.path.join(paths[i], "%s_dark_%g_%04d.edf" % (radices[i], t, k)), s.dark(t) * nf, t, nf, energy=rng.choice([None, "7.1"]))
    # Images
    data, flats = {}, {}
    tot = np.zeros((s.n, ny, nx))
    flat = {1: np.zeros((s.n, ny, nx)), 2: np.zeros((s.n, ny, nx))}
    order = rng.sample(range(s.n), s.n)
    # energies are not in the header
    values = rng.random() < 0.25
    vdata, vflat = {}, {}
    count = 0
    single = []
    for i in order:
        estr = None if values else fmt(rng, s.energies[i])
        ird = rng.randrange(nrad)
        time = 0.0
        img = 0.0
        for k in range(rng.choice([1, 1, 2, 3])):
            t = rng.choice(s.texp)
            nf = 1 if s.noframes else rng.randint(1, 8)
            rate = s.beam[i] * np.exp(-s.mu[i]) * rng.uniform(0.9, 1.1)
            f = os.path.join(paths[ird], "%s_data_0000_%04d_%04d.edf" % (radices[ird], count, k))
            vdata[f] = s.energies[i]
            s.write(f, (rate * t + s.dark(t)) * nf, t, nf, energy=estr)
            img = img + rate * t * nf
            time += t * nf
        tot[i] = img / time
        nflat = rng.choice([1, 2, 2, 3, 4])
        half = nflat // 2
        acc = {1: [0.0, 0.0], 2: [0.0, 0.0]}
        for k in range(nflat):
            t = rng.choice(s.texp)
            nf = 1 if s.noframes else rng.randint(1, 8)
            rate = s.beam[i] * (1 + s.drift * (k + 0.5 - nflat / 2.0) / nflat)
            f = os.path.join(paths[ird], "%s_ref_0000_%04d_%04d.edf" % (radices[ird], count, k))
            vflat[f] = s.energies[i]
            s.write(f, (rate * t + s.dark(t)) * nf, t, nf, energy=estr)
            where = 1 if not beforeafter or nflat == 1 or k < half else 2
            acc[where][0] = acc[where][0] + rate * t * nf
            acc[where][1] += t * nf
        flat[1][i] = acc[1][0] / acc[1][1]
        if beforeafter:
            flat[2][i] = flat[1][i] if nflat == 1 else acc[2][0] / acc[2][1]
            if nflat == 1:
                single.append(i)
        count += 1
    if s.region is not None and not values and rng.random() < 0.2:
        # one more energy without flats of another region: does not belong
        s.write(os.path.join(paths[-1], "%s_data_0000_%04d_0000.edf" % (radices[-1], 9999)), s.beam[0], s.texp[0], 1, energy="9.9", other=True)
    # Regions
    if rng.random() < 0.5:
        a, ya = roi1(rng, ny)
        b, xb = roi1(rng, nx)
        roi = (a, b)
    else:
        roi, ya, xb = None, (0, ny), (0, nx)
    rebin = rng.choice([(1, 1), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)])
    if rebin[0] > ya[1] - ya[0] or rebin[1] > xb[1] - xb[0]:
        rebin = (1, 1)
    my, mx = (ya[1] - ya[0]) // rebin[0], (xb[1] - xb[0]) // rebin[1]

    def reduce(x):
        x = x[..., ya[0] : ya[1], xb[0] : xb[1]]
        out = np.zeros(x.shape[:-2] + (my, mx))
        for i in range(my):
            for j in range(mx):
                out[..., i, j] = x[..., i * rebin[0] : (i + 1) * rebin[0], j * rebin[1] : (j + 1) * rebin[1]].sum(axis=(-1, -2))
        return out

    stackdim = rng.choice([0, 0, 1, 2])
    result = None
    crop = rng.random() < 0.25
    if crop:
        cy, cya = roi1(rng, my)
        cx, cxb = roi1(rng, mx)
        result = (cy, cx)
    out = os.path.join(c.dir, "out.h5")
    par = {
        "sourcepaths": paths if nrad > 1 or rng.random() < 0.5 else paths[0], "radix": radices if nrad > 1 or rng.random() < 0.5 else radices[0],
        "nxentry": out + "::/entry", "stackdim": stackdim, "flatbeforeafter": beforeafter,
        "normalize": method != "none", "normalizeonload": method == "onload", "roiraw": roi, "rebin": rebin, "roiresult": result,
    }
    what = "n=%d shape=%s roi=%s rebin=%s stackdim=%d method=%s beforeafter=%s single=%d measured=%s of %s frames=%s region=%s crop=%s nrad=%d %s values=%s" % (
        s.n, s.shape, roi, rebin, stackdim, method, beforeafter, len(single), s.measured, s.texp, not s.noframes, s.region, result, nrad, s.dtype, values,
    )
    given = copy.deepcopy(par)
    tasks = id21_ffxas.tasks(**par)
    for t in tasks:
        if t.method == "fullfield":
            t.parameters["darkcurrentzero"] = s.zero * scale
            t.parameters["darkcurrentgain"] = s.gain * scale
            if values:
                for v, name in ((vdata, "data"), (vflat, "flat")):
                    if rng.random() < 0.5 or nrad > 1:
                        files = rng.sample(sorted(v), len(v))
                        t.parameters[name + "list"] = list(files)
                    else:
                        files = sorted(v)
                    t.parameters[name + "stackvalues"] = [v[f] for f in files]
    c.require(run_sequential(tasks), "pipeline failed", what)
    c.require(par == given, "parameters modified", what)
    c.event("pipelines")
    sortind = np.argsort(s.energies)
    raw = reduce(tot)[sortind] * scale
    f1, f2 = reduce(flat[1])[sortind] * scale, reduce(flat[2])[sortind] * scale
    absorb = -np.log(raw / ((f1 + f2) / 2 if beforeafter else f1))
    tol = 2e-4 if s.dtype != "int32" else 5e-4
    y0, x0 = (s.region[1], s.region[0]) if s.region else (0, 0)
    row = y0 + ya[0] + np.arange(my) * rebin[0] + (rebin[0] - 1) / 2.0
    col = x0 + xb[0] + np.arange(mx) * rebin[1] + (rebin[1] - 1) / 2.0
    en = np.array(s.energies)[sortind]
    for t in tasks:
        res, axes, sd = nxresult.regulargriddata(t.output)
        c.require(sd == stackdim, "stack dimension", what)
        sig = {x.name: x for v in res.values() for x in v}
        cropped = t.method == "crop"
        iy, ix = (slice(*cya), slice(*cxb)) if cropped else (slice(None), slice(None))
        normed = method == "onload" or (method == "later" and t.method != "fullfield")
        exp = {"sample": (absorb if normed else raw)[:, iy, ix]}
        if method == "later" and t.method == "fullfield":
            exp["flat1"] = f1
            if beforeafter:
                exp["flat2"] = f2
        c.require(set(sig) == set(exp), "signals", lambda: "%s: %s != %s %s" % (t, sorted(sig), sorted(exp), what))
        for k, v in exp.items():
            with sig[k].open(mode="r") as dset:
                got = np.moveaxis(dset[()], stackdim, 0)
            if k == "sample" and normed:
                close(c, got, v, "absorbance", atol=5 * tol, rtol=tol, info=what)
            else:
                close(c, got, v, "intensity", rtol=3 * tol, atol=0.1, info=k + " " + what)
            c.event("stacks")
        names = ["row", "col"]
        names.insert(stackdim, "energy")
        c.require([a.name for a in axes] == names, "axes", lambda: "%s %s" % ([a.name for a in axes], what))
        expax = [row[iy], col[ix]]
        expax.insert(stackdim, en)
        for a, b in zip(axes, expax):
            close(c, a.magnitude, b, "axis " + a.name, rtol=1e-6, atol=1e-6, info=what)
    c.key(method, beforeafter, stackdim, roi is not None, rebin != (1, 1), crop, nrad, s.region is not None, bool(single), values)
    c.sample(what)


GROUPS = [Group("ff", ff, 100, 2500, minimum=75)]
