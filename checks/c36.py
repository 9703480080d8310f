"""Raw data that is converted to NeXus or prepared for fitting is the raw data."""
import os
import h5py
import numpy as np
from lib.vp import Group, Discard
from lib import h5snap
from checks.c24 import close
from checks.c31 import write_edf
from spectrocrunch.io import nxfs, xiaedf, xiaedftonexus
from spectrocrunch.process import utils, edfregulargrid

ID = "C36"
LEVEL = "exploration"
RULE = "random maps (shape, detectors, counters, statistics, headers) x conversion options; random dead times x preparation options; lists of images"

MOT = {"samy": "mm", "samz": "mm", "sampy": "um", "sampz": "um"}


def header(rng, c, nrow, ncol):
    """(EDF header, {axis: (values, unit)}, energy in keV, time in s)"""
    h, axes = [], {}
    if rng.random() < 0.8:
        fast, slow = rng.choice([("samy", "samz"), ("sampy", "sampz"), ("sampz", "samy"), ("samz", "sampy")])
        fa, sa = round(rng.uniform(-20, 20), 3), round(rng.uniform(-20, 20), 3)
        fb, sb = fa + rng.choice([-1, 1]) * rng.uniform(0.1, 9), sa + rng.choice([-1, 1]) * rng.uniform(0.1, 9)
        fb, sb = round(fb, 3), round(sb, 3)
        if nrow < 2:
            raise Discard
        h.append(("Title", "zapimage %s %r %r %d 100 %s %r %r %d 0" % (fast, fa, fb, ncol, slow, sa, sb, nrow - 1)))
        axes[slow] = (sa + np.arange(nrow) * (sb - sa) / (nrow - 1), MOT[slow])
        axes[fast] = (fa + (np.arange(ncol) + 0.5) * (fb - fa) / ncol, MOT[fast])
    energy, time = None, 0.1 if h else None
    if rng.random() < 0.8:
        energy = round(rng.uniform(2, 20), 4)
        h.append(("DCM_Energy", repr(energy)))
    if rng.random() < 0.8:
        time = rng.choice([0.1, 0.25, 1.0, 2.0])
        h.append(("time", repr(time)))
    return h, axes, energy, time


def units_of(dset):
    u = dset.attrs.get("units", "")
    return u.decode() if isinstance(u, bytes) else u


SCALE = {"mm": 1e-3, "millimeter": 1e-3, "um": 1e-6, "micrometer": 1e-6, "µm": 1e-6, "m": 1.0, "meter": 1.0}


def convert(c, rng, big=False):
    r = c.np
    nrow, ncol = rng.randint(1, 6), rng.randint(1, 5)
    nchan = rng.randint(2, 7)
    if big:
        nrow, ncol, nchan = 60, 240, 2000
    dets = sorted(rng.sample(range(0, 6), 1 if big else rng.randint(1, 4)))
    if rng.random() < 0.6:
        dets = list(range(len(dets)))
    labels = ["%02d" % d for d in dets]
    n = len(dets)
    h, axes, energy, time = header(rng, c, nrow, ncol)
    radix, number = rng.choice(["map", "a_b", "scan"]), rng.choice([0, 1, 37])
    path = os.path.join(c.dir, "raw")
    os.makedirs(path)
    dtype = rng.choice(["int32", "int32", "float32"]) if not big else "int32"
    data = r.randint(0, 1000, (nrow, ncol, nchan, n)).astype(dtype)
    st = r.randint(1000, 30000, (nrow, ncol, 6, n)).astype("int32")
    st[..., 2:4, :][r.rand(nrow, ncol, 2, n) < 0.1] = 0
    hasstats = rng.random() < 0.8
    for l in range(nrow):
        for i, lab in enumerate(labels):
            write_edf(os.path.join(path, "%s_xia%s_%04d_0000_%04d.edf" % (radix, lab, number, l)), data[l, :, :, i], [("xdata", 1), ("xdet", dets[i])])
        if hasstats:
            write_edf(os.path.join(path, "%s_xiast_%04d_0000_%04d.edf" % (radix, number, l)), np.moveaxis(st[l], 2, 1).reshape(ncol, 6 * n), [("xdata", 3), ("xdet", " ".join(map(str, dets)))])
    names = ["arr_iodet"] * (rng.random() < 0.8) + ["arr_idet"] * (rng.random() < 0.8) + rng.sample(["arr_fdet", "arr_absorp1", "zap_p201_I0"], rng.randint(0, 3))
    plain = list(names)
    per = []
    for k in ["xmap_icr", "xmap_ocr", "xmap_x1", "xmap_x1c"]:
        if rng.random() < 0.4:
            per += [(k, lab) for lab in labels]
    if not plain and not per:
        plain = ["arr_iodet"]
    ctr = {}
    for k in plain:
        ctr[k] = (k, r.rand(nrow, ncol).astype("float32"))
    for k, lab in per:
        ctr[k + "_" + lab] = (k, r.rand(nrow, ncol).astype("float32"))
    for k, (_, a) in ctr.items():
        write_edf(os.path.join(path, "%s_%s_%04d_0000.edf" % (radix, k, number)), a, h)
    # options
    inc, exc = [], []
    bases = sorted({b for b, _ in ctr.values()})
    if rng.random() < 0.3:
        inc = rng.sample(bases, rng.randint(1, len(bases)))
    if rng.random() < 0.3:
        exc = rng.sample(bases, rng.randint(1, len(bases)))
    kept = {k: a for k, (b, a) in ctr.items() if (not inc or b in inc) and b not in exc}
    flux = rng.choice([None, "I0", "If"])
    trans = rng.choice([None, "It"])
    filename = os.path.join(c.dir, "out.h5")
    how = rng.choice(["task", "converter", "converter", "chunks"]) if not big else "converter"
    info = lambda: "%s %s x %s, detectors %s, counters %s, include %s, exclude %s" % (how, (nrow, ncol), nchan, labels, sorted(ctr), inc, exc)
    if how == "task":
        pat = lambda ks: [{"method": "regex", "pattern": "^%s$" % k} if rng.random() < 0.5 else {"method": "equal", "value": k} for k in ks]
        t = utils.create_task(
            method="xiaedftonx", name="scan", outputparent=filename, path=path, radix=radix, number=number, instrument="sxm",
            include_counters=pat(inc), exclude_counters=pat(exc), fluxid=flux, transmissionid=trans,
        )
        t.run()
        c.require(t.done, "conversion failed", info)
        entry = t.output
    else:
        fn = lambda ks: [lambda x, k=k: x == k for k in ks]
        kw = {"fluxid": flux, "transmissionid": trans}
        if rng.random() < 0.5:
            kw["nxentry"] = "scan"
        dt = rng.choice([np.float32, np.float64])
        conv = xiaedftonexus.Converter(h5file=filename, include_counters=fn(inc), exclude_counters=fn(exc), instrument="sxm", dtype=dt, **kw)
        if how == "chunks":
            ind = [0] + sorted(rng.sample(range(1, nrow), rng.randint(0, nrow - 1))) + [nrow]
            conv._copy_indexing = lambda: (ind, "chunks")
        entry = conv(xiaedf.xiaimage_number(path, radix, number))
    before = {f: os.path.getsize(os.path.join(path, f)) for f in os.listdir(path)}
    c.require(len(before) == nrow * (n + hasstats) + len(ctr), "raw files", info)
    with h5py.File(filename, "r") as f:
        e = f[entry.path]
        c.require(e.attrs["NX_class"] == "NXentry", "entry", info)
        ins = [g for g in e.values() if g.attrs.get("NX_class") == "NXinstrument"]
        c.require(len(ins) == 1, "instrument", info)
        ins = ins[0]
        found = {k for k, g in ins.items() if g.attrs.get("NX_class") == "NXdetector"}
        c.require(found == {"mca" + lab for lab in labels}, "detectors", lambda: "%s: %s" % (info(), found))
        app = e["xrf"]
        c.require(app["definition"][()] in (b"NXxrf", "NXxrf"), "definition", info)
        for i, lab in enumerate(labels):
            raw = ins["mca" + lab]["data"]
            c.require(raw.dtype == data.dtype and np.array_equal(raw[()], data[..., i]), "spectra", lambda: "%s: detector %s" % (info(), lab))
            g = app["mca" + lab]
            c.require(np.array_equal(g["data"][()], data[..., i]), "spectra of application", lambda: "%s: detector %s" % (info(), lab))
            tm = float(g["preset_time"][()])
            c.require(abs(tm - time) < 1e-6 if time is not None else np.isnan(tm), "preset time", lambda: "%s: %s %s" % (info(), tm, time))
            for name, k in (("live_time", 2), ("elapsed_time", 3)):
                c.require((name in g) == hasstats, "times", lambda: "%s: %s" % (info(), name))
                if hasstats:
                    with np.errstate(all="ignore"):
                        exp = st[..., 1, i].astype(np.float64) / st[..., k, i].astype(np.float64)
                    c.require(np.allclose(g[name][()], exp, rtol=1e-5, equal_nan=True), name, lambda: "%s: %s %s" % (info(), g[name][()], exp))
                    c.require(units_of(g[name]) in ("s", "second", "seconds"), "unit of time", lambda: "%s: %r" % (info(), units_of(g[name])))
        m = e["measurement"]
        sig = {k for k in m if isinstance(m[k], h5py.Dataset) and m[k].shape == (nrow, ncol)}
        times = {p + lab for lab in labels for p in ("elapsed_time_", "live_time_")} if hasstats else set()
        ax = set(axes)
        c.require(sig == set(kept) | times, "counters", lambda: "%s: %s" % (info(), sig ^ (set(kept) | times)))
        for k, a in kept.items():
            c.require(np.array_equal(m[k][()], a), "counter", lambda: "%s: %s" % (info(), k))
        for k, src in (("i0", {"If": "arr_fdet"}.get(flux, "arr_iodet")), ("it", "arr_idet")):
            c.require((k in app) == (src in kept), "beam monitor", lambda: "%s: %s %s" % (info(), k, src))
            if src in kept:
                c.require(np.array_equal(app[k][()], kept[src]), "beam monitor", lambda: "%s: %s %s" % (info(), k, src))
        mono = ins["monochromator"] if "monochromator" in ins else None
        c.require(mono is not None and "energy" in mono, "monochromator", info)
        en = float(np.asarray(mono["energy"][()]))
        if energy is None:
            c.require(np.isnan(en), "energy", lambda: "%s: %s" % (info(), en))
        else:
            f_ = {"keV": 1, "kiloelectron_volt": 1, "eV": 1e-3}[units_of(mono["energy"])]
            c.require(abs(en * f_ - energy) < 1e-5 * energy, "energy", lambda: "%s: %s %s" % (info(), en, energy))
        if axes:
            p = m
            c.require([x.decode() if isinstance(x, bytes) else x for x in np.atleast_1d(m.attrs["axes"])] == list(axes), "axes", lambda: "%s: %s" % (info(), m.attrs["axes"]))
            for k, (v, u) in axes.items():
                got = p[k][()] * SCALE[units_of(p[k])]
                c.require(got.shape == v.shape and np.allclose(got, v * SCALE[u], rtol=1e-5, atol=1e-9), "axis", lambda: "%s: %s %s %s" % (info(), k, got, v))
        d = nxfs.Path("/", h5file=filename)
    c.event("converted spectra", nrow * ncol * n)
    c.event("converted counters", len(kept))
    # nothing was added to or changed in the raw data
    again = xiaedf.xiaimage_number(path, radix, number)
    c.require(np.array_equal(again.data[..., 0] if n == 1 else again.data, data[..., 0] if n == 1 else data), "raw data", info)
    # a second conversion is another entry with the same content
    if not big and how != "task" and rng.random() < 0.3:
        first = h5snap.snapshot(filename, entry.path)
        conv = xiaedftonexus.Converter(h5file=filename, nxentry="other", instrument="sxm")
        other = conv(xiaedf.xiaimage_number(path, radix, number))
        c.require(other.path != entry.path and h5snap.snapshot(filename, entry.path) == first, "other entry", info)
    c.key(how, nrow, ncol, n, len(kept), hasstats, bool(axes))


def large(c, rng):
    """More spectra than are copied at once"""
    convert(c, rng, big=True)


# ---------------------------------------------------------------- preparation for fitting


def prepare(c, rng):
    r = c.np
    n = rng.randint(1, 4)
    shape = tuple(rng.randint(1, 5) for _ in range(rng.randint(1, 2)))
    nchan = rng.randint(2, 8)
    names = rng.sample(["mca0", "mca1", "mca2", "mca_det3", "fx_det0"], n)
    filename = os.path.join(c.dir, "raw.h5")
    preset = rng.choice([0.1, 1.0, 2, 0.25])
    truth, counters = {}, {}
    kinds = {}
    with h5py.File(filename, "w") as f:
        e = f.create_group("1.1")
        e.attrs["NX_class"] = "NXentry"
        ins = e.create_group("instrument")
        ins.attrs["NX_class"] = "NXinstrument"
        for k in names:
            g = ins.create_group(k)
            g.attrs["NX_class"] = "NXdetector"
            d = r.randint(0, 1000, shape + (nchan,)).astype(rng.choice(["uint32", "int64", "float64"]))
            lt = r.uniform(0.05, 1, shape) * preset
            kind = rng.choice(["live_time", "output_live_time", "rates"])
            kinds[k] = kind
            g["data"] = d
            if kind == "rates":
                ev = r.randint(1000, 20000, shape).astype(float)
                g["events"] = ev
                g["trigger_count_rate"] = ev / lt
            else:
                g[kind] = lt
            if rng.random() < 0.3:
                g["real_time"] = r.rand(*shape)
            truth[k] = (d, lt)
        for k in ["iodet", "idet", "samy"]:
            g = ins.create_group(k)
            g.attrs["NX_class"] = "NXdetector" if k != "samy" else "NXpositioner"
            counters[k] = r.rand(*shape)
            g["data"] = counters[k]
    use = rng.choice([["mca"], ["mca.*", "fx"], names[:1], ["fx_det0"]])
    sel = [k for p in use for k in sorted(names) if k.startswith(p.replace(".*", ""))]
    mode = rng.choice(["add", "add", "each", "raw"])
    suffix = rng.choice([None, "_x", "sum"])
    ctr = rng.sample(sorted(counters), rng.randint(0, 3))
    sub = {"%s/data" % k: k for k in ctr if rng.random() < 0.3}
    p = {"detectors": use, "preset_time": preset, "counters": [k for k in ctr if k + "/data" not in sub]}
    if mode != "add":
        p["add"] = False
        p["dtcor"] = mode == "each"
    if suffix is not None:
        p["detector_suffix"] = suffix
    suffix = suffix or "cor"
    out = filename if rng.random() < 0.4 else os.path.join(c.dir, "out.h5")
    before = h5snap.snapshot(filename, "/1.1")
    info = lambda: "%s %s of %s, live time from %s, suffix %r, counters %s" % (mode, use, names, kinds, suffix, p["counters"])
    t = utils.create_task(method="blissmcapre", dependencies=nxfs.Path("/1.1", h5file=filename), outputparent=out + "::/prepared", name="pre", **p)
    t.run()
    if not sel:
        c.require(not t.done, "nothing to prepare", info)
        c.require(h5snap.snapshot(filename, "/1.1") == before, "raw data changed", info)
        return
    c.require(t.done, "preparation failed", info)
    c.require(h5snap.snapshot(filename, "/1.1") == before, "raw data changed", info)
    cor = {k: truth[k][0] * (float(preset) / truth[k][1][..., np.newaxis]) for k in sel}
    if mode == "add":
        exp = {"mca" + suffix: sum(cor.values())}
    elif mode == "each":
        exp = {k + suffix: cor[k] for k in sel}
    else:
        exp = {k + suffix: truth[k][0] for k in sel}
    with h5py.File(out, "r") as f:
        res = f[t.output.path]["results"]
        got = {k: res[k]["data"][()] for k in res if "type" in res[k]}
        c.require(set(got) == set(exp), "prepared detectors", lambda: "%s: %s" % (info(), sorted(got)))
        for k in exp:
            c.require(got[k].shape == exp[k].shape and np.allclose(got[k], exp[k], rtol=1e-6), "prepared spectra", lambda: "%s: %s %s" % (info(), k, got[k] / exp[k]))
            c.require(float(res[k]["preset_time"][()]) == preset, "preset time", info)
        rest = {k: res[k]["data"][()] for k in res if k not in got}
        c.require(set(rest) == set(p["counters"]), "prepared counters", lambda: "%s: %s" % (info(), sorted(rest)))
        for k, a in rest.items():
            c.require(np.array_equal(a, counters[k]), "prepared counter", lambda: "%s: %s" % (info(), k))
    t2 = utils.create_task(method="blissmcapre", dependencies=nxfs.Path("/1.1", h5file=filename), outputparent=out + "::/prepared", name="pre", **p)
    c.require(t2.done and t2.output == t.output, "prepared twice", info)
    c.event("prepared spectra", int(np.prod(shape)) * len(sel))
    c.key(mode, names, use, sorted(kinds.values()))


# ---------------------------------------------------------------- images as a grid


def grids(c, rng):
    r = c.np
    nrow, ncol, n = rng.randint(2, 6), rng.randint(2, 6), rng.randint(1, 4)
    h, axes, energy, time = header(rng, c, nrow, ncol)
    if not axes:
        raise Discard
    files, names, data = [], rng.sample(["Fe-K", "Si-K", "a.b", "x", "S-K", "Ca_K"], n), []
    for k in names:
        f = os.path.join(c.dir, k + ".edf")
        a = r.rand(nrow, ncol).astype(rng.choice(["float32", "float32", "float64"]))
        write_edf(f, a, h)
        files.append(f)
        data.append(a)
    data = np.stack(data)
    labels = rng.sample(["one", "two", "three", "four"], n) if rng.random() < 0.4 else None
    g = edfregulargrid.EDFRegularGrid(files, labels=labels, instrument="sxm")
    info = lambda: "%s %s: %s" % (names, (nrow, ncol), g.axes)
    c.require(g.shape == data.shape and g.ndim == 3 and g.size == data.size, "grid shape", info)
    c.require(np.array_equal(g.values, data), "grid values", info)
    c.require([a.name for a in g.axes][1:] == list(axes), "grid axes", info)
    c.require(list(g.axes[0].values) == list(labels or names), "grid labels", info)
    for a in g.axes[1:]:
        v, u = axes[a.name]
        c.require(np.allclose(a.values.to(u).magnitude, v, rtol=1e-5, atol=1e-9), "grid positions", info)
    with g.open(mode="r") as d:
        c.require(np.array_equal(d, data), "opened grid", info)
    idx = tuple(rng.choice([slice(None), rng.randrange(s), slice(rng.randrange(s), None), Ellipsis if i == 2 else slice(None, None, 2)]) for i, s in enumerate(data.shape))
    c.require(np.array_equal(g[idx], data[idx]), "indexed grid", lambda: "%s %s" % (info(), idx))
    try:
        g[0] = 1
    except NotImplementedError:
        pass
    else:
        c.require(False, "images are read-only", info)
    c.event("grids")
    c.key(nrow, ncol, n, bool(labels))


GROUPS = [
    Group("convert", convert, 80, 1500, minimum=55),
    Group("large", large, 1, 4, minimum=0, exclusive=True),
    Group("prepare", prepare, 100, 2500, minimum=80),
    Group("grids", grids, 100, 3000, minimum=60),
]
