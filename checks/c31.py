"""Detector data read through any index and configuration equals what the files say."""
import os, random
import numpy as np
from lib.vp import Group, Discard
from checks.c15 import rand_index, npindex
from spectrocrunch.io import xiaedf, edf

ID = "C31"
LEVEL = "exploration"
RULE = (
    "random maps (1-3 maps, 1-4 lines, 1-5 pixels, 2-6 channels, 1-4 detectors with gaps, sum detectors, counters, low "
    "and zero rates, zero monitors) written as raw EDF bytes among decoy files; histories of configuration changes and "
    "reads through one object, opened by radix, number or file list; compared with numpy after each read; saved copies "
    "are read back from the files; non-trivial: processing on"
)
STAT = ["DET", "EVT", "ICR", "OCR", "LT", "DT"]


def write_edf(path, arr, extra=(), big=False):
    """EDF bytes, independent of the code under test"""
    arr = np.asarray(arr)
    names = {"int32": "SignedInteger", "uint16": "UnsignedShort", "float32": "FloatValue", "float64": "DoubleValue"}
    raw = arr.astype(arr.dtype.newbyteorder(">" if big else "<")).tobytes()
    h = [
        ("HeaderID", "EH:000001:000000:000000"),
        ("Image", "1"),
        ("ByteOrder", "HighByteFirst" if big else "LowByteFirst"),
        ("DataType", names[str(arr.dtype)]),
        ("Dim_1", arr.shape[1]),
        ("Dim_2", arr.shape[0]),
        ("Size", len(raw)),
    ] + list(extra)
    s = "{\n" + "".join("%s = %s ;\n" % kv for kv in h)
    n = len(s) + 2
    s += " " * ((-n) % 512) + "}\n"
    with open(path, "wb") as f:
        f.write(s.encode() + raw)


def read_edf(path):
    """(array, header) of a file with one image"""
    with open(path, "rb") as f:
        raw = f.read()
    end = raw.index(b"}\n") + 2
    hdr = {}
    for line in raw[:end].decode().split("\n"):
        if "=" in line:
            k, v = line.split("=", 1)
            hdr[k.strip()] = v.strip().rstrip(";").strip()
    hdr = {k: v for k, v in hdr.items()}
    dt = {"SignedInteger": "i4", "UnsignedShort": "u2", "FloatValue": "f4", "Float": "f4", "DoubleValue": "f8", "Double": "f8", "SignedLong": "i4", "Signed64": "i8", "UnsignedInteger": "u4", "UnsignedLong": "u4"}[hdr["DataType"]]
    dt = ("<" if hdr["ByteOrder"] == "LowByteFirst" else ">") + dt
    shape = int(hdr["Dim_2"]), int(hdr["Dim_1"])
    return np.frombuffer(raw[end : end + shape[0] * shape[1] * np.dtype(dt).itemsize], dt).reshape(shape), hdr


class DS:
    """Random measurement and the arrays it stands for"""

    def __init__(self, c, rng, kind):
        self.kind = kind
        self.nmap = rng.randint(1, 3) if kind == "stack" else 1
        self.nrow = 1 if kind == "line" else rng.randint(1, 4)
        self.ncol = rng.randint(1, 5)
        self.nchan = rng.randint(2, 6)
        dets = sorted(rng.sample(range(0, 6), rng.randint(1, 4)))
        self.numbers = dets if rng.random() < 0.5 else list(range(len(dets)))
        self.labels = ["%02d" % d for d in self.numbers]
        self.sums = rng.random() < 0.25
        self.all = self.labels + (["S0"] if self.sums else [])
        self.radix = rng.choice(["map", "a_b", "x1", "scan_xia", "m"])
        self.first = rng.choice([0, 0, 1, 37, 9999])
        self.path = c.dir
        r = c.np
        shape = (self.nmap, self.nrow, self.ncol)
        ddt = rng.choice(["int32", "int32", "float32", "float64"])
        self.data = r.randint(0, 1000, shape + (self.nchan, len(self.all))).astype(ddt)
        nd = len(self.labels)
        st = r.randint(1000, 30000, shape + (6, nd)).astype("int32")
        st[..., 3, :] = np.maximum((st[..., 2, :] * r.uniform(0.4, 1.1, shape + (nd,))).astype(int), 0)
        low = r.rand(*shape, nd) < 0.15
        st[..., 2, :][low] = r.randint(0, 1000, low.sum())
        st[..., 3, :][r.rand(*shape, nd) < 0.1] = 0
        self.stats = st
        self.hasstats = rng.random() < 0.9
        self.ctrs = []
        if kind != "line":
            self.ctrs = rng.sample(["arr_iodet", "arr_idet", "arr_fx1", "zap_p201_I0"], rng.randint(1, 3))
            if rng.random() < 0.4:
                self.ctrs += ["xmap_x1_" + d for d in self.labels] + ["xmap_x1c_sum"] * self.sums
        self.ctr = {k: r.randint(1, 50, shape).astype("float32") for k in self.ctrs}
        for k in self.ctr:
            if rng.random() < 0.5:
                self.ctr[k][r.rand(*shape) < 0.15] = 0
        self.big = rng.random() < 0.3
        self.sub = rng.choice(["", "", "ctr"])
        if self.sub:
            os.makedirs(os.path.join(self.path, self.sub))
        self.files = []
        for m in range(self.nmap):
            self.files.append([])
            for l in range(self.nrow):
                fs = []
                for i, lab in enumerate(self.all):
                    f = self.name(self.radix, m, "xia" + lab, l)
                    write_edf(f, self.data[m, l, :, :, i], [("xdata", 1), ("xdet", i)], self.big)
                    fs.append(f)
                if self.hasstats:
                    f = self.name(self.radix, m, "xiast", l)
                    a = np.moveaxis(st[m, l], 2, 1).reshape(self.ncol, 6 * nd)
                    extra = [("xdata", 3)]
                    if self.numbers != list(range(nd)) or rng.random() < 0.5:
                        extra.append(("xdet", " ".join(map(str, self.numbers))))
                    write_edf(f, a, extra, self.big)
                    fs.append(f)
                self.files[-1].append(fs)
            for k in self.ctrs:
                write_edf(self.name(self.radix, m, k), self.ctr[k][m], [("time", "now")], self.big)
        # decoys
        junk = np.zeros((2, 2), "int32")
        for rad in (self.radix + "_2", "b_" + self.radix, self.radix + "2"):
            write_edf(self.name(rad, 0, "xia00", 0), junk)
            if self.ctrs and rng.random() < 0.5:
                write_edf(self.name(rad, 0, "arr_iodet"), junk)

    def name(self, radix, m, label, line=None):
        base = "%s_%s_%04d_0000" % (radix, label, m + self.first)
        if line is None:
            return os.path.join(self.path, self.sub, base + ".edf")
        return os.path.join(self.path, base + "_%04d.edf" % line)

    def trim(self, a):
        return {"line": lambda: a[0, 0], "image": lambda: a[0], "stack": lambda: a}[self.kind]()

    def open(self, rng):
        m = self.first
        if self.kind == "line":
            if rng.random() < 0.5:
                return xiaedf.xialine_number(self.path, self.radix, m, 0)
            f = list(self.files[0][0])
            return xiaedf.xialine_files(f)
        if self.kind == "image":
            r = rng.random()
            if r < 0.5:
                o = xiaedf.xiaimage_number(self.path, self.radix, m)
            elif r < 0.75 or self.sub:
                o = xiaedf.xiaimage_linenumbers(self.path, self.radix, m, list(range(self.nrow)))
            else:
                f = [x for l in self.files[0] for x in l] + [self.name(self.radix, 0, k) for k in self.ctrs]
                rng.shuffle(f)
                o = xiaedf.xiaimage_files(f)
        else:
            r = rng.random()
            if r < 0.4:
                o = xiaedf.xiastack_radix(self.path, self.radix)
            elif r < 0.7 or self.sub:
                nums = [m + i for i in range(self.nmap)]
                o = xiaedf.xiastack_mapnumbers([self.path], [self.radix], nums if rng.random() < 0.5 else [nums])
            else:
                f = [x for mm in self.files for l in mm for x in l]
                f += [self.name(self.radix, i, k) for i in range(self.nmap) for k in self.ctrs]
                rng.shuffle(f)
                o = xiaedf.xiastack_files(f)
        if self.sub:
            o.counter_reldir(self.sub)
        return o


class Conf:
    def __init__(self):
        self.excl, self.incl = [], []
        self.dt = self.sum = False
        self.norm = None
        self.func = None
        self.icr = True

    def __repr__(self):
        return repr(self.__dict__)


def used(ds, cf):
    def tolabel(d):
        if isinstance(d, int):
            return "%02d" % d
        d = d[3:] if d.startswith("xia") else d
        return "%02d" % int(d) if d.isdigit() else d

    ex, inc = [tolabel(d) for d in cf.excl], [tolabel(d) for d in cf.incl]
    return [i for i, l in enumerate(ds.all) if l not in ex and (not inc or l in inc)]


def usedctrs(ds, cf):
    """Counters of the selected detectors and counters without detector"""
    keep = [ds.all[i] for i in used(ds, cf)]
    return [k for k in sorted(ds.ctrs) if not k.startswith("xmap") or k.split("_")[-1].replace("sum", "S0") in keep]


def expected(ds, cf):
    """(data, stats, counters) of the whole measurement"""
    sel = used(ds, cf)
    data = ds.data[..., sel]
    nd = len(ds.labels)
    st = np.concatenate([ds.stats, np.zeros(ds.stats.shape[:-1] + (1,), int)], axis=-1)
    st = st[..., [i if i < nd else nd for i in sel]]
    if cf.dt:
        icr, ocr = st[..., 2, :].astype(float), st[..., 3, :].astype(float)
        cor = np.ones_like(icr)
        ok = (icr >= 1000) & (ocr > 0) & (icr > ocr)
        cor[ok] = icr[ok] / ocr[ok]
        data = data * cor[..., np.newaxis, :]
    if cf.sum:
        data = data.sum(axis=-1, keepdims=True, dtype=None if not cf.dt else float)
    if cf.norm is not None:
        if isinstance(cf.norm, str):
            n = ds.ctr[cf.norm].astype(float) if cf.norm in ds.ctr else np.ones(ds.data.shape[:3])
        else:
            n = np.full(ds.data.shape[:3], float(cf.norm))
        if cf.func is not None:
            n = cf.func(n)
        n = np.where(n == 0, 1, n)
        data = data / n[..., np.newaxis, np.newaxis]
    if cf.icr:
        st = st[..., [2, 3], :]
    ctr = None
    if ds.ctrs:
        names = usedctrs(ds, cf)
        if not names:
            return ds.trim(data), ds.trim(st), None
        ctr = np.stack([ds.ctr[k] for k in names], axis=-1)[..., np.newaxis]
    return ds.trim(data), ds.trim(st), None if ctr is None else ds.trim(ctr)


def full_dims(index, nd, dims):
    """The same index with full slices for some dimensions"""
    if not isinstance(index, tuple):
        index = (index,)
    if Ellipsis in [i if i is Ellipsis else None for i in index]:
        p = [k for k, i in enumerate(index) if i is Ellipsis][0]
        index = index[:p] + (slice(None),) * (nd - len(index) + 1) + index[p + 1 :]
    index = list(index) + [slice(None)] * (nd - len(index))
    for d in dims:
        index[d] = slice(None)
    return tuple(index)


def change(rng, ds, o, cf):
    what = rng.choice(["dt", "sum", "norm", "det", "det", "icr"])
    if what == "dt":
        cf.dt = bool(ds.hasstats and rng.random() < 0.6)
        o.dtcor(cf.dt)
    elif what == "sum":
        cf.sum = rng.random() < 0.5
        o.detectorsum(cf.sum)
    elif what == "norm":
        if ds.kind == "line":
            return
        cf.norm = rng.choice([None] + [k for k in ds.ctrs if k[:4] != "xmap"] * 2 + [2.5, 4, "arr_missing"])
        cf.func = rng.choice([None, None, lambda x: x * 2 + 1, lambda x: x - 5])
        o.globalnorm(cf.norm, func=cf.func)
    elif what == "icr":
        cf.icr = rng.random() < 0.5
        o.onlyicrocr(cf.icr)
    else:
        forms = [lambda i: int(i) if i.isdigit() else i, lambda i: "xia" + i, lambda i: i]
        pick = lambda k: [rng.choice(forms)(i) for i in rng.sample(ds.all, k)]
        cf.excl, cf.incl = [], []
        if rng.random() < 0.6:
            cf.excl = pick(rng.randint(0, len(ds.all) - 1))
        if rng.random() < 0.5:
            cf.incl = pick(rng.randint(1, len(ds.all)))
        if not used(ds, cf):
            cf.excl, cf.incl = [], []
        o.exclude_detectors, o.include_detectors = cf.excl, cf.incl


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-6 if a.dtype == np.float32 else 1e-10, atol=0)


def read(c, rng, ds, o, cf, info):
    D, S, C = expected(ds, cf)
    nd = D.ndim
    shape = D.shape[:-1] + ((1,) if cf.sum else D.shape[-1:])
    what = rng.choice(["data", "data", "stats", "counters", "ds", "all"])
    if what in ("counters", "all") and C is None:
        what = "ds"
    if what in ("stats", "ds", "all") and not ds.hasstats:
        what = "data"
    mode = rng.choice(["property", "index", "index", "index"])
    if mode == "property" and what in ("data", "stats", "counters"):
        index = slice(None)
        if what == "stats" and rng.random() < 0.3:
            got = (o.allstats,)
            cf2 = Conf()
            cf2.__dict__.update(cf.__dict__, icr=False)
            S = expected(ds, cf2)[1]
        else:
            got = (getattr(o, what),)
    else:
        index = rand_index(rng, shape, allow_new=False, empty=False)
        if cf.sum:
            index = full_dims(index, nd, [-1])
        if what == "counters":
            index = full_dims(index, nd, [-1, -2])
        {"data": o.onlydata, "stats": o.onlystats, "counters": o.onlycounters, "ds": o.dataandstats, "all": o.dataall}[what]()
        got = o[index]
        if what in ("ds", "all"):
            c.require(isinstance(got, tuple) and len(got) == (2 if what == "ds" else 3), "tuple", info)
        else:
            got = (got,)
    try:
        eD = D[npindex(index)]
        eS = S[npindex(full_dims(index, nd, [-2]))] if "s" in what or what == "all" else None
        eC = C[npindex(full_dims(index, nd, [-2, -1]))] if what in ("counters", "all") else None
    except (IndexError, ValueError):
        raise Discard
    exp = {"data": (eD,), "stats": (eS,), "counters": (eC,), "ds": (eD, eS), "all": (eD, eS, eC)}[what]
    for n, g, e in zip({"ds": ["data", "stats"], "all": ["data", "stats", "counters"]}.get(what, [what]), got, exp):
        c.require(
            same(g, e),
            "%s:%s" % (ds.kind, n),
            lambda: (info(), what, mode, index, np.shape(g), np.shape(e), np.asarray(g).ravel()[:6], e.ravel()[:6]),
        )
        c.event("read_" + n)
        c.event("values", e.size)
    return index


def reading(c, rng, kind):
    ds = DS(c, rng, kind)
    o = ds.open(rng)
    cf = Conf()
    log = []
    info = lambda: (log[-8:], cf, ds.labels, ds.data.shape, type(o).__name__, ds.sub)
    D, S, _ = expected(ds, cf)
    c.require(tuple(o.dshape) == D.shape, "dshape", lambda: (info(), o.dshape, D.shape))
    c.require(list(o.detectors) == ds.all and list(o.xialabels) == ["xia" + l for l in ds.all], "detectors", info)
    for step in range(6):
        for _ in range(rng.randint(0, 3)):
            change(rng, ds, o, cf)
        log.append(repr(cf))
        log.append(repr(read(c, rng, ds, o, cf, info)))
        sel = used(ds, cf)
        c.require(list(o.detectors_used) == [ds.all[i] for i in sel], "detectors_used", info)
        c.require(tuple(o.dshape) == expected(ds, Conf())[0].shape[:-1] + (len(sel),), "dshape", lambda: (info(), o.dshape))
        if rng.random() < 0.15:
            before = (o.exclude_detectors, o.include_detectors)
            seen = []
            for det in o.iter_detectors():
                seen.append(det)
                o.onlydata()
                cf2 = Conf()
                cf2.__dict__.update(cf.__dict__, excl=[], incl=[det])
                e = expected(ds, cf2)[0]
                c.require(same(o[:], e), "iter_detectors:data", lambda: (info(), det))
            c.require(seen == [ds.all[i] for i in sel], "iter_detectors", lambda: (info(), seen))
            c.require((o.exclude_detectors, o.include_detectors) == before, "iter_detectors:restore", info)
            # leaving the loop early
            stop = rng.choice(["break", "raise"])
            try:
                for det in o.iter_detectors():
                    if stop == "break":
                        break
                    raise KeyError(det)
            except KeyError:
                pass
            c.require((o.exclude_detectors, o.include_detectors) == before, "iter_detectors:restore early", info)
            c.require(same(o[:], expected(ds, cf)[0]), "iter_detectors:data afterwards", info)
            c.event("loops_left_early")
    if not (cf.dt or cf.sum or cf.norm is not None):
        c.trivial()
    c.key(kind, *log)


def line(c, rng):
    reading(c, rng, "line")


def image(c, rng):
    reading(c, rng, "image")


def stack(c, rng):
    reading(c, rng, "stack")


def interrupted(c, rng):
    """A read that fails has no effect on later reads"""
    ds = DS(c, rng, rng.choice(["line", "image", "stack"]))
    o = ds.open(rng)
    cf = Conf()
    for _ in range(rng.randint(0, 3)):
        change(rng, ds, o, cf)
    D, S, C = expected(ds, cf)
    modes = ["onlydata"]
    if ds.hasstats:
        modes += ["dataandstats", "onlystats"]
    mode = rng.choice(modes)
    getattr(o, mode)() if hasattr(o, mode) else None
    # files are searched for once
    assert o.dshape and (ds.kind == "line" or ds.nmap == 0 or o.counternames() is not None)
    sel = rng.choice([f for m in ds.files for l in m for f in l])
    bak = sel + ".bak"
    os.rename(sel, bak)
    if rng.random() < 0.5:
        with open(sel, "wb") as f:
            f.write(b"{\n} garbage")
    failed = False
    try:
        o[...]
    except Exception:
        failed = True
    os.rename(bak, sel)
    got = o[...]
    e = {"onlydata": (D,), "onlystats": (S,), "dataandstats": (D, S)}[mode]
    got = got if isinstance(got, tuple) else (got,)
    c.require(len(got) == len(e), "interrupted:mode", lambda: (mode, len(got), cf))
    for g, x in zip(got, e):
        c.require(same(g, x), "interrupted:data", lambda: (mode, cf, np.shape(g), np.shape(x)))
    if failed:
        c.event("failed_reads")
    else:
        c.trivial()
    c.key(ds.kind, mode, repr(cf))


def save(c, rng):
    """Saved data is what was asked to be saved, as files that say so"""
    kind = rng.choice(["line", "image", "stack"])
    ds = DS(c, rng, kind)
    o = ds.open(rng)
    cf = Conf()
    for _ in range(rng.randint(0, 4)):
        change(rng, ds, o, cf)
    D, S, C = expected(ds, cf)
    cf6 = Conf()
    cf6.__dict__.update(cf.__dict__, icr=False)
    S6 = expected(ds, cf6)[1]
    sel = used(ds, cf)
    labels = ["xiaS1"] if cf.sum else ["xia%02d" % (10 + i) for i in range(len(sel))]
    out = os.path.join(c.dir, "out", "deep")
    if kind == "line":
        dest = xiaedf.xialine_number(out, "new", 4, 0)
    elif kind == "image":
        dest = xiaedf.xiaimage_number(out, "new", 4)
    else:
        dest = xiaedf.xiastack_radix(out, "new")
    withstats = ds.hasstats and not cf.sum and not any(ds.all[i] == "S0" for i in sel) and rng.random() < 0.7
    how = rng.choice(["object", "object", "array"])
    info = lambda: (kind, how, cf, withstats, D.shape, ds.all)
    again = rng.random() < 0.3
    if how == "object":
        kw = {"stats": True} if withstats else {}
        withctrs = C is not None and rng.random() < 0.6
        if withctrs:
            kw["ctrs"] = True
        dest.save(o, xialabels=labels, **kw)
    else:
        withctrs = False
        dest.save(D.copy(), xialabels=labels, stats=S6.copy() if withstats else None)
    full = {"line": (1, 1), "image": (1, ds.nrow), "stack": (ds.nmap, ds.nrow)}[kind]
    D5, S5 = D.reshape(full + D.shape[-3:]), S6.reshape(full + S6.shape[-3:])
    m0 = 4 if kind != "stack" else 0
    nfiles = 0
    for m in range(full[0]):
        for l in range(full[1]):
            for i, lab in enumerate(labels):
                f = os.path.join(out, "new_%s_%04d_0000_%04d.edf" % (lab, m + m0, l))
                c.require(os.path.isfile(f), "save:missing", lambda: (info(), f, os.listdir(out)))
                a, h = read_edf(f)
                c.require(same(a, D5[m, l, :, :, i]), "save:data", lambda: (info(), m, l, i, a, D5[m, l, :, :, i]))
                nfiles += 1
            f = os.path.join(out, "new_xiast_%04d_0000_%04d.edf" % (m + m0, l))
            c.require(os.path.isfile(f) == bool(withstats), "save:stats_file", lambda: (info(), f))
            if withstats:
                a, h = read_edf(f)
                e = np.moveaxis(S5[m, l], 2, 1).reshape(ds.ncol, -1)
                c.require(same(a, e), "save:stats", lambda: (info(), a, e))
                nfiles += 1
        if withctrs:
            for k in usedctrs(ds, cf):
                f = os.path.join(out, "new_%s_%04d_0000.edf" % (k, m + m0))
                c.require(os.path.isfile(f), "save:missing_counter", lambda: (info(), f, os.listdir(out)))
                a, h = read_edf(f)
                c.require(same(a, ds.ctr[k][m]), "save:counter", lambda: (info(), k, a, ds.ctr[k][m]))
                nfiles += 1
    c.require(len(os.listdir(out)) == nfiles, "save:extra", lambda: (info(), os.listdir(out)))
    c.event("files_saved", nfiles)
    # read back
    if kind == "line":
        back = xiaedf.xialine_number(out, "new", 4, 0)
    elif kind == "image":
        back = xiaedf.xiaimage_number(out, "new", 4)
    else:
        back = xiaedf.xiastack_radix(out, "new")
    for b in (back, dest):
        c.require(same(b.data, D), "save:readback", lambda: (info(), b.data.shape))
        if withstats:
            c.require(same(b.allstats, S6), "save:readback_stats", info)
    if again:
        # existing files are kept unless asked otherwise
        over = rng.random() < 0.5
        dest.overwrite(over)
        new = (D + 1).astype(D.dtype)
        dest.save(new.copy(), xialabels=labels)
        b = {"line": lambda: xiaedf.xialine_number(out, "new", 4, 0), "image": lambda: xiaedf.xiaimage_number(out, "new", 4), "stack": lambda: xiaedf.xiastack_radix(out, "new")}[kind]()
        c.require(same(b.data, new if over else D), "save:overwrite", lambda: (info(), over))
        c.event("overwrite")
    # the source is still the same
    for m in range(ds.nmap):
        for l in range(ds.nrow):
            for i, f in enumerate(ds.files[m][l][: len(ds.all)]):
                c.require(np.array_equal(read_edf(f)[0], ds.data[m, l, :, :, i]), "save:source", info)
    c.key(kind, how, repr(cf))


def names(c, rng):
    """Naming, grouping and selection of files"""
    files = {}
    radices = rng.sample(["a", "a_b", "map1", "xia_x", "b"], rng.randint(1, 3))
    ctrs = [("arr_iodet", "arr_iodet", ""), ("zap_I0", "zap_I0", ""), ("xmap_x1_00", "xmap_x1", "00"), ("xmap_x1_12", "xmap_x1", "12"), ("xmap_x1c_sum", "xmap_x1c", "sum"), ("PUZ_xmap_icr_03", "PUZ_xmap_icr", "03"), ("PUZ_arr_x", "PUZ_arr_x", "")]
    for r in radices:
        for m in rng.sample([0, 1, 5, 99, 10000], rng.randint(1, 3)):
            for l in rng.sample([0, 1, 2, 10, 12345], rng.randint(1, 3)):
                for lab in rng.sample(["xia00", "xia01", "xia12", "xiaS0", "xiast"], rng.randint(1, 4)):
                    files[xiaedf.xiafilename(r, m, l, lab)] = (r, m, l, lab, "xia", lab[3:])
            for lab, base, det in rng.sample(ctrs, rng.randint(0, 3)):
                files[xiaedf.xiafilename(r, m, -1, lab)] = (r, m, -1, lab, base, det)
    pre = rng.choice(["", "/data/x_arr_1/", "rel/"])
    for f, (r, m, l, lab, base, det) in files.items():
        fmt = "%s_%s_%04d_0000" % (r, lab, m) + ("" if l == -1 else "_%04d" % l) + ".edf"
        c.require(f == fmt, "filename", lambda: (f, fmt))
        p = xiaedf.xianameparser.parse(pre + f)
        exp = dict(radix=r, mapnum=m, linenum=l, label=lab)
        got = {k: getattr(p, k) for k in exp}
        c.require(got == exp, "parse", lambda: (f, p, exp))
        if base == "xia" or det:
            c.require((p.baselabel, p.detector) == (base, det), "parse:detector", lambda: (f, p))
    lst = [pre + f for f in files]
    rng.shuffle(lst)
    key = lambda f: files[f[len(pre) :]][:4]
    srt = sorted(lst, key=key)
    g = xiaedf.xiagroup(list(lst))
    flat = [f for r in g.values() for m in r.values() for l in m.values() for f in l]
    c.require(flat == srt, "group:order", lambda: (flat, srt))
    for r, ms in g.items():
        for m, ls in ms.items():
            for l, fs in ls.items():
                c.require(all(key(f)[:3] == (r, m, l) for f in fs), "group:content", lambda: (r, m, l, fs))
    g2 = xiaedf.xiagroupmaps2(list(lst))
    flat = [f for m in g2.values() for l in m.values() for f in l]
    c.require(sorted(flat) == sorted(lst), "groupmaps2:lost", lambda: (g2, sorted(lst)))
    for k, ls in g2.items():
        c.require(len({key(f)[:2] for fs in ls.values() for f in fs}) == 1, "groupmaps2:mixed", lambda: (k, ls))
    one = [f for f in lst if key(f)[0] == radices[0]]
    if one:
        g3 = xiaedf.xiagroupmaps(list(one))
        flat = [f for m in g3.values() for l in m.values() for f in l]
        c.require(flat == sorted(one, key=key), "groupmaps", lambda: g3)
        m0 = key(one[0])[1]
        two = [f for f in one if key(f)[1] == m0]
        g4 = xiaedf.xiagrouplines(list(two))
        c.require([f for l in g4.values() for f in l] == sorted(two, key=key), "grouplines", lambda: g4)
        n = sum(1 for f in two if files[f[len(pre) :]][4] == "xia")
        c.require(xiaedf.xiagroupnxiafiles(g4) == n, "nxiafiles", lambda: (g4, n))
    # on disk: search
    d = os.path.join(c.dir, "s")
    os.makedirs(d)
    for f in files:
        open(os.path.join(d, f), "w").close()
    r = rng.choice(radices)
    m = rng.choice(sorted({v[1] for v in files.values() if v[0] == r}))
    bn = lambda fs: [os.path.basename(f) for f in fs]
    k2 = lambda f: files[f][:4]
    exp = sorted((f for f, v in files.items() if v[0] == r and v[1] == m and v[2] != -1), key=k2)
    got = bn(xiaedf.xiasearch(d, radix=r, mapnum=m, ctrs=False))
    c.require(got == exp, "search:data", lambda: (r, m, got, exp))
    exp = sorted((f for f, v in files.items() if v[0] == r and v[1] == m and v[2] == -1), key=k2)
    got = bn(xiaedf.xiasearch(d, radix=r, mapnum=m, onlyctrs=True))
    c.require(got == exp, "search:counters", lambda: (r, m, got, exp))
    exp = sorted((f for f, v in files.items() if v[0] == r), key=k2)
    got = bn(xiaedf.xiasearch(d, radix=r))
    c.require(got == exp, "search:radix", lambda: (r, got, exp))
    c.event("names", len(files))
    c.key(*sorted(files))


def items(c, rng):
    """The lines of an image and the images of a stack give their part of the data"""
    ds = DS(c, rng, rng.choice(["image", "stack"]))
    o = ds.open(rng)
    cf = Conf()
    log = []
    info = lambda: (log[-8:], cf, ds.labels, ds.data.shape, type(o).__name__, ds.sub)
    for step in range(4):
        for _ in range(rng.randint(0, 3)):
            change(rng, ds, o, cf)
        if cf.norm is not None:
            cf.norm = None
            o.globalnorm(None)
        log.append(repr(cf))
        if rng.random() < 0.6:
            log.append(repr(read(c, rng, ds, o, cf, info)))
        D, S, C = expected(ds, cf)
        lst = list(o)
        c.require(len(lst) == D.shape[0], "items:number", info)
        i = rng.randrange(len(lst))
        it = lst[i]
        index = rand_index(rng, D.shape[1:], allow_new=False, empty=False)
        if cf.sum:
            index = full_dims(index, D.ndim - 1, [-1])
        mode = rng.choice(["data", "ds"]) if ds.hasstats else "data"
        (o.onlydata if mode == "data" else o.dataandstats)()
        log.append(repr((i, mode, index)))
        try:
            e = (D[i][npindex(index)], S[i][npindex(full_dims(index, D.ndim - 1, [-2]))])
        except (IndexError, ValueError):
            raise Discard
        got = it[index]
        got = got if isinstance(got, tuple) else (got,)
        for n, g, x in zip(["data", "stats"], got, e):
            c.require(same(g, x), "items:" + n, lambda: (info(), np.shape(g), x.shape, g, x))
        c.event("items")
    c.key(*log)


def incomplete(c, rng):
    """Lines or maps that are not complete are left out, the others are unaffected"""
    kind = rng.choice(["image", "stack"])
    ds = DS(c, rng, kind)
    if kind == "image":
        if ds.nrow < 2:
            raise Discard
        l = rng.randint(1, ds.nrow - 1)
        os.remove(rng.choice(ds.files[0][l]))
        o = xiaedf.xiaimage_number(ds.path, ds.radix, ds.first)
        exp = np.delete(ds.data[0], l, axis=0)
    else:
        if ds.nmap < 2:
            raise Discard
        m = rng.randint(1, ds.nmap - 1)
        for f in rng.choice(ds.files[m]) if rng.random() < 0.5 else [rng.choice(rng.choice(ds.files[m]))]:
            os.remove(f)
        o = xiaedf.xiastack_radix(ds.path, ds.radix) if rng.random() < 0.5 else xiaedf.xiastack_mapnumbers([ds.path], [ds.radix], list(range(ds.first, ds.first + ds.nmap)))
        exp = np.delete(ds.data, m, axis=0)
    got = o.data
    c.require(same(got, exp), "incomplete:" + kind, lambda: (np.shape(got), exp.shape))
    c.event("incomplete")
    c.key(kind, repr(exp.shape), repr(exp.ravel()[:4]))


def subset(c, rng):
    """Selected maps of one or more radices, in order"""
    n = rng.randint(1, 2)
    dss = []
    base = DS(c, rng, "stack")
    nums = sorted(rng.sample(range(base.nmap), rng.randint(1, base.nmap)))
    o = xiaedf.xiastack_mapnumbers([base.path], [base.radix], [i + base.first for i in nums])
    c.require(same(o.data, base.data[nums]), "subset:data", lambda: (nums, o.dshape))
    c.require(sorted(o.datafilenames()) == sorted(f for m in nums for l in base.files[m] for f in l[: len(base.all)]), "subset:files", lambda: nums)
    c.event("subset")
    c.key(repr(nums), base.radix, repr(base.data.shape))


def edfread(c, rng):
    """One EDF file: direct and memory mapped reading; reading never changes the file"""
    dt = rng.choice(["int32", "uint16", "float32", "float64"])
    a = (c.np.randint(0, 60000, (rng.randint(1, 6), rng.randint(1, 6)))).astype(dt)
    f = os.path.join(c.dir, "x.edf")
    write_edf(f, a, [("k", "v")], rng.random() < 0.5)
    raw = open(f, "rb").read()
    for cls in rng.sample([edf.edfimage, edf.edfmemmap, edf.edfmemmap], 3):
        im = cls(f)
        c.require(tuple(im.shape) == a.shape and im.ndim == 2 and np.dtype(im.dtype) == a.dtype, "edf:shape", lambda: (cls, im.shape, im.dtype))
        c.require(np.array_equal(im.data, a), "edf:data", lambda: (cls, dt, im.data, a))
        c.require(np.array_equal(im[1:, ::2], a[1:, ::2]), "edf:index", lambda: cls)
        del im
        c.require(open(f, "rb").read() == raw, "edf:file_changed", lambda: cls)
    g = os.path.join(c.dir, "y.edf")
    edf.saveedf(g, a, {"alpha": "beta"})
    b, h = read_edf(g)
    c.require(np.array_equal(a, b) and b.dtype.itemsize == a.dtype.itemsize, "saveedf:data", lambda: (a, b, b.dtype))
    c.require(h.get("alpha") == "beta", "saveedf:header", lambda: h)
    raw = open(g, "rb").read()
    try:
        edf.saveedf(g, a + 1, {})
    except IOError:
        c.require(open(g, "rb").read() == raw, "saveedf:refused_but_changed")
    else:
        c.require(False, "saveedf:overwrites")
    edf.saveedf(g, a + 1, {}, overwrite=True)
    c.require(np.array_equal(read_edf(g)[0], (a + 1).astype(a.dtype)), "saveedf:overwrite")
    c.event("edf_files", 2)
    c.key(dt, repr(a))


GROUPS = [
    Group("line", line, 400, 5000),
    Group("image", image, 600, 8000),
    Group("stack", stack, 450, 6000),
    Group("interrupted", interrupted, 150, 3000),
    Group("save", save, 400, 6000),
    Group("names", names, 200, 4000),
    Group("items", items, 300, 4000),
    Group("incomplete", incomplete, 60, 1500),
    Group("subset", subset, 60, 1500),
    Group("edfread", edfread, 150, 3000),
]
MIN_EVENTS = {"values": 100000, "read_data": 4000, "read_stats": 2000, "read_counters": 800, "files_saved": 1500, "failed_reads": 50, "items": 600}
