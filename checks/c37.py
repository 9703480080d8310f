"""What a scene draws: every value at its coordinate, whatever was transposed, flipped, shifted, rescaled or replaced before."""
import warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from lib.vp import Group, Discard
from checks.c24 import close
from spectrocrunch.visualization import scene
from spectrocrunch.process import scenevis
from spectrocrunch.patch.pint import ureg

ID = "C37"
LEVEL = "exploration"
RULE = "random images (one to four channels, integers, descending axes, other units), points and polygons in one or two scenes; random histories of flips, origins, ranges, transpositions, new data, channels and intensity limits; the drawn objects are read back after every update"

UNITS = ["mm", "um", "m"]


class Model(object):
    """Where and how a scene should draw its items."""

    def __init__(self, units):
        self.units = units
        self.items = []  # [item, spec]
        self.scale, self.off = [1.0, 1.0], [0.0, 0.0]
        self.inc = [True, True]
        self.tr = False
        self.names = ["Dim0", "Dim1"]
        self.aspect = None

    def axis(self, d):  # data axis of the x (0) or y (1) axis
        return d if self.tr else 1 - d

    def extremes(self, axis):
        v = [x for item, spec in self.items for x in spec.coords(axis, self.units[axis])]
        return min(v), max(v)

    def shown(self, axis, v):
        return np.asarray(v) * self.scale[axis] + self.off[axis]

    def setrange(self, axis, p, q):
        a, b = self.extremes(axis)
        self.scale[axis] = (q - p) / (b - a)
        self.off[axis] = p - self.scale[axis] * a

    def zero(self, axis):
        self.off[axis] -= min(self.shown(axis, self.extremes(axis)))

    def flip(self, axis, increasing):
        if increasing is None or increasing != self.inc[axis]:
            self.inc[axis] = not self.inc[axis]
        else:
            s = sum(self.shown(axis, self.extremes(axis)))
            self.scale[axis] *= -1
            self.off[axis] = s - self.off[axis]


class ImageSpec(object):
    def __init__(self, data, lim, settings):
        self.data, self.lim = data, lim  # lim: quantities or None
        self.settings = settings  # per scene

    def ends(self, axis, unit):
        if self.lim[axis] is None:
            return [0.0, self.data.shape[axis] - 1.0]
        return [float(x.to(unit).magnitude) for x in self.lim[axis]]

    coords = ends

    def centers(self, axis, unit):
        a, b = self.ends(axis, unit)
        n = self.data.shape[axis]
        return a + (b - a) / (n - 1) * np.arange(n)

    def channels(self, settings):
        depth = self.data.shape[2] if self.data.ndim == 3 else 1
        ch = settings.get("channels")
        ch = list(range(min(depth, 3))) if ch is None else list(ch)[:3]
        if len(ch) > 1:
            ch += [None] * (3 - len(ch))
        return ch

    def values(self, settings):
        d = self.data if self.data.ndim == 3 else self.data[..., None]
        return [None if i is None else d[..., i].astype(float) for i in self.channels(settings)]


class PointSpec(object):
    def __init__(self, x, kind):
        self.x, self.kind = x, kind

    def coords(self, axis, unit):
        return [float(v) for v in np.atleast_1d(self.x[axis].to(unit).magnitude)]


def newimage(c, rng, units, depth=None):
    np_ = c.np
    shape = (rng.randint(2, 6), rng.randint(2, 7))
    depth = depth if depth is not None else rng.choice([0, 0, 0, 1, 2, 3, 3, 4])
    if depth:
        shape += (depth,)
    data = np_.randint(-50, 50, shape) if rng.random() < 0.4 else np_.uniform(-5, 5, shape)
    lim = []
    for axis in range(2):
        if units[axis] == "dimensionless":
            u = "dimensionless"
        else:
            u = rng.choice([units[axis], units[axis], "mm"])
        a = rng.choice([0, round(rng.uniform(-10, 10), 2)])
        b = a + rng.choice([-1, 1]) * round(rng.uniform(0.5, 10), 2)
        lim.append(ureg.Quantity(np.array([a, b]), u))
        if u == "dimensionless" and rng.random() < 0.4:
            lim[-1] = None
    arg = []
    for axis in range(2):
        if lim[axis] is None:
            arg.append(None)
        else:
            how = rng.choice(["ends", "all", "list"])
            a, b = lim[axis].magnitude
            u = lim[axis].units
            if how == "all":
                arg.append(ureg.Quantity(np.linspace(a, b, shape[axis]), u))
            elif how == "list":
                arg.append([ureg.Quantity(a, u), ureg.Quantity(b, u)])
            else:
                arg.append(lim[axis])
    return data, lim, arg


def draw(c, rng):
    warnings.simplefilter("ignore")
    try:
        _draw(c, rng)
    finally:
        plt.close("all")


def _draw(c, rng):
    np_ = c.np
    nscenes = rng.choice([1, 1, 2])
    base = rng.choice([("dimensionless",) * 2, (rng.choice(UNITS), rng.choice(UNITS)), (rng.choice(UNITS), rng.choice(UNITS))])
    scenes, models = [], []
    for i in range(nscenes):
        u = base if base[0] == "dimensionless" else (rng.choice([base[0], "mm"]), rng.choice([base[1], "mm"]))
        scenes.append(scene.Scene(unit0=ureg.Unit(u[0]), unit1=ureg.Unit(u[1])) if base[0] != "dimensionless" or rng.random() < 0.5 else scene.Scene())
        f, ax = plt.subplots()
        scenes[-1].setaxes(ax)
        models.append(Model(u))
    for i in range(rng.choice([1, 1, 2, 3])):
        kind = "image" if i == 0 else rng.choice(["image", "points", "line", "polygon"])
        if kind == "image":
            data, lim, arg = newimage(c, rng, base)
            kw = {}
            if arg[0] is not None:
                kw["lim0"] = arg[0]
            if arg[1] is not None:
                kw["lim1"] = arg[1]
            item = scene.Image(data.copy(), labels=["ch%d" % k for k in range(5)], **kw)
            spec = ImageSpec(data, lim, [{} for _ in scenes])
        else:
            n = rng.randint(3, 6)
            x = [ureg.Quantity(np_.uniform(-12, 12, n), u) for u in base]
            cls = {"points": scene.Scatter, "line": scene.Polyline, "polygon": scene.Polygon}[kind]
            item = cls(x[0], x[1])
            spec = PointSpec(x, kind)
        for s, m in zip(scenes, models):
            if rng.random() < 0.5:
                s.register(item)
            else:
                item.register(s)
            m.items.append((item, spec))
    history = []
    before = [spec.data.copy() for item, spec in models[0].items if isinstance(spec, ImageSpec)]
    for step in range(rng.randint(1, 4)):
        for j in range(rng.randint(0, 3)):
            k = rng.randrange(nscenes)
            s, m = scenes[k], models[k]
            axis = rng.randrange(2)
            d = rng.randrange(2)  # x or y
            op = rng.choice(["range", "zero", "reset", "resetorigin", "flip", "flip", "inc", "transpose", "data", "move", "limits", "channels", "selfscale", "global", "names", "visvis", "modify"])
            if op == "range":
                p, q = rng.uniform(-5, 5), rng.uniform(6, 9)
                if rng.random() < 0.3:
                    p, q = q, p
                s.setdatarange(axis, ureg.Quantity(np.array([p, q]), m.units[axis]))
                m.setrange(axis, p, q)
            elif op == "zero":
                s.originzero()
                m.zero(0), m.zero(1)
            elif op == "reset":
                s.resetdatarange()
                m.scale, m.off = [1.0, 1.0], [0.0, 0.0]
            elif op == "resetorigin":
                if m.scale != [1.0, 1.0]:
                    continue
                s.originreset()
                m.off = [0.0, 0.0]
            elif op == "flip":
                inc = rng.choice([None, True, False])
                kw = {} if inc is None and rng.random() < 0.5 else {"increasing": inc}
                (s.flipy if d else s.flipx)(**kw)
                m.flip(m.axis(d), inc)
            elif op == "inc":
                inc = rng.random() < 0.5
                (s.increasingy if d else s.increasingx)(inc)
                m.inc[m.axis(d)] = inc
            elif op == "transpose":
                m.tr = rng.random() < 0.6
                s.transpose(m.tr)
            elif op == "names":
                m.names = [rng.choice(["samy", "X", ""]), rng.choice(["samz", "Y"])]
                s.axlabels = list(m.names)
            elif op == "modify":
                par = {"originzero": rng.random() < 0.5, "transpose": rng.random() < 0.5}
                par["flipx"], par["flipy"], par["incx"], par["incy"] = [rng.random() < 0.5 for _ in range(4)]
                scenevis.scene_modifyaxes(s, par)
                if par["originzero"]:
                    m.zero(0), m.zero(1)
                m.tr = m.tr or par["transpose"]
                for q, nm in enumerate("xy"):
                    if par["flip" + nm]:
                        m.flip(m.axis(q), par["inc" + nm])
                    elif par["inc" + nm]:
                        m.inc[m.axis(q)] = True
            elif op == "global":
                imgs = [spec for item, spec in m.items if isinstance(spec, ImageSpec)]
                lo, hi = overall(imgs, k)
                par = rng.choice([{"rlo": 0.1, "rhi": 0.7}, {"rlo": 0.2}, {"rhi": 0.6}, {"alo": -1.0, "ahi": 2.0}, {"rlo": 0, "rhi": 1}, {}])
                scenevis.scene_globalscaling(s, par)
                if par:
                    for spec in imgs:
                        spec.settings[k]["vmin"] = None
                        spec.settings[k]["vmax"] = None
                        if "alo" in par:
                            spec.settings[k].update(vmin=-1.0, vmax=2.0)
                        if "rlo" in par:
                            spec.settings[k]["vmin"] = lo + par["rlo"] * (hi - lo)
                        if "rhi" in par:
                            spec.settings[k]["vmax"] = lo + par["rhi"] * (hi - lo)
            else:
                item, spec = rng.choice(m.items)
                isimg = isinstance(spec, ImageSpec)
                item.selectscene(s)
                if op == "data" and isimg:
                    depth = spec.data.shape[2] if spec.data.ndim == 3 else 0
                    data, lim, arg = newimage(c, rng, base, depth=depth)
                    if arg[0] is None or arg[1] is None:
                        arg = [None, None]
                        lim = [None, None]
                    item.updatedata(data.copy(), lim0=arg[0], lim1=arg[1], labels=["n%d" % q for q in range(5)])
                    spec.data, spec.lim = data, lim
                elif op == "move" and not isimg:
                    n = rng.randint(3, 6)
                    spec.x = [ureg.Quantity(np_.uniform(-12, 12, n), u) for u in base]
                    item.updatedata(spec.x[0], spec.x[1])
                elif op == "channels" and isimg and spec.data.ndim == 3:
                    depth = spec.data.shape[2]
                    ch = rng.choice([None, [rng.randrange(depth)], [rng.randrange(depth) for _ in range(3)], [rng.randrange(depth), None, rng.randrange(depth)], [rng.randrange(depth) for _ in range(2)]])
                    # no change between one and three channels after drawing
                    old = len(spec.channels(spec.settings[k]))
                    if step and len(spec.channels({"channels": ch})) != old:
                        continue
                    item.set_setting("channels", list(ch) if ch is not None else None)
                    spec.settings[k]["channels"] = ch
                    spec.settings[k]["vmin"] = spec.settings[k]["vmax"] = None
                    item.scale()
                elif op == "limits" and isimg:
                    lo = rng.choice([None, round(rng.uniform(-6, 0), 2)])
                    hi = rng.choice([None, round(rng.uniform(6, 12), 2)])
                    item.scale(vmin=lo, vmax=hi)
                    spec.settings[k].update(vmin=lo, vmax=hi)
                elif op == "selfscale" and isimg:
                    pmin, pmax = rng.choice([(0, 1), (0.1, 0.8), (0, 0.5), (0.3, 1)])
                    item.selfscale(pmin=pmin, pmax=pmax)
                    v = spec.values(spec.settings[k])
                    v = [np.zeros(1) if x is None else x for x in v]
                    lo, hi = np.array([x.min() for x in v]), np.array([x.max() for x in v])
                    spec.settings[k].update(vmin=lo + pmin * (hi - lo), vmax=lo + pmax * (hi - lo))
                else:
                    continue
            history.append((k, op, axis, d))
            c.event("op_" + op)
        for k in rng.sample(range(nscenes), nscenes):
            if step == 0 or rng.random() < 0.7:
                imgs = [spec for item, spec in models[k].items if isinstance(spec, ImageSpec)]
                for spec in imgs:
                    lo, hi = limits(imgs, spec, k)
                    n = len(spec.channels(spec.settings[k]))
                    if np.any(np.asarray(lo[:n]) > np.asarray(hi[:n])):
                        raise Discard  # lower limit above the highest value
                scenes[k].updateview()
                check(c, rng, scenes[k], models[k], k, history)
    for item, spec in models[0].items:
        if isinstance(spec, ImageSpec):
            c.require(np.array_equal(item._data, spec.data), "scene:data modified", lambda: history)
    c.key("scene", nscenes, models[0].tr, tuple(models[0].inc), len(models[0].items), tuple(h[1] for h in history[:3]))


def overall(imgs, k):
    """Range of each channel over all images."""
    los, his = [], []
    for spec in imgs:
        v = [np.zeros(1) if x is None else x for x in spec.values(spec.settings[k])]
        los.append([x.min() for x in v])
        his.append([x.max() for x in v])
    n = max(map(len, los))
    los = np.nanmin([x + [np.nan] * (n - len(x)) for x in los], axis=0)
    his = np.nanmax([x + [np.nan] * (n - len(x)) for x in his], axis=0)
    return los, his


def limits(imgs, spec, k):
    st = spec.settings[k]
    lo, hi = overall(imgs, k)
    vmin = lo if st.get("vmin") is None else np.ones(3) * st["vmin"] if np.ndim(st["vmin"]) == 0 else st["vmin"]
    vmax = hi if st.get("vmax") is None else np.ones(3) * st["vmax"] if np.ndim(st["vmax"]) == 0 else st["vmax"]
    return vmin, vmax


def check(c, rng, s, m, k, history):
    ax = s.ax
    xa, ya = m.axis(0), m.axis(1)
    imgs = [spec for item, spec in m.items if isinstance(spec, ImageSpec)]
    c.require(len(ax.images) == len(imgs), "scene:number of images", lambda: (history, len(ax.images), len(imgs)))
    it = iter(ax.images)
    lims = [[], []]
    for item, spec in m.items:
        if not isinstance(spec, ImageSpec):
            for q, a in enumerate((xa, ya)):
                v = m.shown(a, spec.coords(a, m.units[a]))
                lims[q] += [v.min(), v.max()]
            continue
        im = next(it)
        st = spec.settings[k]
        arr = np.asarray(im.get_array(), dtype=float)
        e = [float(v) for v in im.get_extent()]
        n0, n1 = spec.data.shape[:2]
        nx, ny = (n0, n1) if m.tr else (n1, n0)
        c.require(arr.shape[:2] == (ny, nx), "scene:image shape", lambda: (history, arr.shape, nx, ny))
        c.require(im.origin == "lower", "scene:image origin", im.origin)
        px = e[0] + (np.arange(nx) + 0.5) * (e[1] - e[0]) / nx
        py = e[2] + (np.arange(ny) + 0.5) * (e[3] - e[2]) / ny
        rx = m.shown(xa, spec.centers(xa, m.units[xa]))
        ry = m.shown(ya, spec.centers(ya, m.units[ya]))
        tol = lambda r: 1e-6 * max(np.abs(r).max(), abs(r[-1] - r[0]), 1e-9)
        c.require(np.allclose(px, rx, rtol=0, atol=tol(rx)), "scene:x of the pixels", lambda: (history, m.tr, px, rx))
        c.require(np.allclose(py, ry, rtol=0, atol=tol(ry)), "scene:y of the pixels", lambda: (history, m.tr, py, ry))
        for q, r in enumerate((rx, ry)):
            h = abs(r[1] - r[0]) / 2
            lims[q] += [r.min() - h, r.max() + h]
        # what is shown in the pixels
        vals = spec.values(st)
        vmin, vmax = limits(imgs, spec, k)
        if len(vals) == 1:
            shown = np.asarray(im.norm(im.get_array()), dtype=float)
            c.require(arr.ndim == 2, "scene:gray", arr.shape)
            shown = shown[..., None]
        else:
            c.require(arr.ndim == 3 and arr.shape[2] == 3, "scene:rgb", arr.shape)
            shown = arr
        for i, v in enumerate(vals):
            v = np.zeros((n0, n1)) if v is None else v
            if vmax[i] <= vmin[i]:
                continue
            ref = np.clip((v - vmin[i]) / (vmax[i] - vmin[i]), 0, 1)
            if m.tr:
                ref = ref.T
            c.require(np.allclose(shown[..., i], ref, atol=2e-6), "scene:intensity", lambda: (history, i, len(vals), shown[..., i], ref, vmin, vmax))
            c.event("pixels", ref.size)
        ch = spec.channels(st)
        item.selectscene(s)
        lab = item.labels
        pre = lab and [x[:-1] for x in lab if x]
        c.require([x and x[-1] for x in lab] == [None if q is None else str(q) for q in ch], "scene:labels", lambda: (lab, ch))
    # points
    lines = [ln for ln in ax.lines]
    for item, spec in m.items:
        if isinstance(spec, ImageSpec):
            continue
        x = m.shown(xa, spec.coords(xa, m.units[xa]))
        y = m.shown(ya, spec.coords(ya, m.units[ya]))
        ref = np.column_stack([x, y])
        loop = np.vstack([ref, ref[:1]])
        tol = 1e-6 * max(1e-9, np.abs(ref).max())
        same = lambda a: any(a.shape == r.shape and np.allclose(a, r, rtol=0, atol=tol) for r in ([ref] if spec.kind == "points" else [ref, loop]))
        if spec.kind == "polygon":
            c.require(any(same(np.asarray(p.get_xy())) for p in ax.patches), "scene:polygon", lambda: (history, ref, [p.get_xy() for p in ax.patches]))
        else:
            c.require(any(same(np.column_stack(ln.get_data())) for ln in lines), "scene:" + spec.kind, lambda: (history, ref, [ln.get_data() for ln in lines]))
        c.event("points", len(x))
    npoly = sum(1 for item, spec in m.items if not isinstance(spec, ImageSpec) and spec.kind == "polygon")
    c.require(len(ax.patches) == npoly, "scene:number of polygons", lambda: (history, len(ax.patches), npoly))
    # axes
    for q, (got, a) in enumerate(((ax.get_xlim(), xa), (ax.get_ylim(), ya))):
        want = [min(lims[q]), max(lims[q])]
        if not m.inc[a]:
            want = want[::-1]
        c.require(np.allclose(got, want, rtol=0, atol=1e-6 * max(np.abs(want))), "scene:axis limits", lambda: (history, q, got, want))
    for got, a in ((ax.get_xlabel(), xa), (ax.get_ylabel(), ya)):
        u = "" if m.units[a] == "dimensionless" else m.units[a]
        name = m.names[a]
        ok = {name + " (" + x + ")" if u and name else name for x in {"um": ["$\\mu$m", "\u00b5m", "\u03bcm", "um"]}.get(u, [u])}
        c.require(got in ok, "scene:axis label", lambda: (got, ok))
    c.require(s.strxunit == s.strunits[xa] and s.stryunit == s.strunits[ya], "scene:units", lambda: (s.strxunit, s.stryunit, s.strunits))
    c.event("views")


def norms(c, rng):
    """Other than linear intensity scales."""
    warnings.simplefilter("ignore")
    np_ = c.np
    try:
        s = scene.Scene()
        f, ax = plt.subplots()
        s.setaxes(ax)
        rgb = rng.random() < 0.5
        shape = (rng.randint(2, 5), rng.randint(2, 5)) + ((3,) if rgb else ())
        data = np_.uniform(0.5, 20, shape)
        im = scene.Image(data.copy(), scene=s)
        name = rng.choice(["log", "power", "symlog", None, "linear", "LOG"])
        args = {"power": (rng.choice([0.5, 2.0, 0.1]),), "symlog": (rng.choice([0.5, 2.0]),)}.get(name, ())
        how = rng.random()
        if how < 0.5:
            im.set_settings({"cnorm": name, "cnormargs": args})
        else:
            s.set_settings({"cnorm": name, "cnormargs": args})
        lo, hi = data.min(axis=(0, 1)), data.max(axis=(0, 1))
        if rng.random() < 0.4:
            lo, hi = 1.0, 10.0
            s.scale(vmin=lo, vmax=hi)
        if rng.random() < 0.3:
            s.updateview()
        s.updateview()
        a = ax.images[0]
        shown = np.asarray(a.get_array() if rgb else a.norm(a.get_array()), dtype=float)
        v = np.clip(data, lo, hi)
        if name and name.lower() == "log":
            ref = np.log(v / lo) / np.log(hi / np.asarray(lo))
        elif name == "power":
            ref = ((v - lo) / (hi - lo)) ** args[0]
        elif name == "symlog":
            t = lambda x: np.where(np.abs(x) <= args[0], x / (1 - 0.1), args[0] * (1 / 0.9 + np.log(np.maximum(np.abs(x), args[0]) / args[0]) / np.log(10)))
            ref = (t(v) - t(np.asarray(lo))) / (t(np.asarray(hi)) - t(np.asarray(lo)))
        else:
            ref = (v - lo) / (hi - lo)
        c.require(shown.shape == ref.shape and np.allclose(shown, ref, atol=1e-6), "norm:%s" % name, lambda: (name, args, rgb, lo, hi, shown, ref))
        c.event("norms")
        c.key("norm", name, rgb)
    finally:
        plt.close("all")


GROUPS = [
    Group("draw", draw, 1000, 20000),
    Group("norms", norms, 300, 5000),
]
MIN_EVENTS = {"views": 150, "pixels": 3000, "points": 50}
