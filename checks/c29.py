"""Lookup tables, discrete spectra and quantities against a plain model with explicit unit factors."""
import copy
import operator
import pickle
import numpy as np
from lib.vp import Group, Discard
from spectrocrunch.utils import lut as lutmod
from spectrocrunch.utils import units
from spectrocrunch.sources import emspectrum
from spectrocrunch.patch.pint import ureg
from spectrocrunch.patch import jsonpickle
import pint

ID = "C29"
LEVEL = "exploration"
RULE = (
    "random histories of adding, replacing, merging, clearing, copying and saving tables with integer/float keys in mixed units; spectra in "
    "energy or wavelength; numbers, quantities, (nested, mixed-unit) lists and arrays through all unit helpers"
)

FACTORS = {
    "length": {"m": 1.0, "cm": 1e-2, "mm": 1e-3, "um": 1e-6, "nm": 1e-9, "angstrom": 1e-10},
    "energy": {"eV": 1.0, "keV": 1e3, "MeV": 1e6},
    "time": {"s": 1.0, "ms": 1e-3, "us": 1e-6, "min": 60.0, "hour": 3600.0},
    "current": {"A": 1.0, "mA": 1e-3, "uA": 1e-6},
    "angle": {"rad": 1.0, "mrad": 1e-3, "deg": np.pi / 180},
    "none": {"dimensionless": 1.0, "percent": 1e-2, "permille": 1e-3, "ppm": 1e-6, "ppb": 1e-9},
}
HC = 12.398419843320026  # keV.angstrom


def close(got, exp, rtol=1e-9, atol=0):
    got, exp = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
    return got.shape == exp.shape and bool(np.all((np.abs(got - exp) <= rtol * np.abs(exp) + atol) | (np.isnan(got) & np.isnan(exp))))


def base(q, dim):
    """value in the base unit of the model, from the public magnitude and the name of the units"""
    names = {str(ureg.Unit(u)): f for u, f in FACTORS[dim].items()}
    return np.asarray(q.magnitude, dtype=float) * names[str(q.units)]


def number(rng, kind):
    return rng.randint(-20, 20) if kind == "int" else round(rng.uniform(-20, 20), 3)


class Table:
    def __init__(self, rng, xdim, ydim):
        self.xdim, self.ydim = xdim, ydim
        self.d = {}  # rounded base x -> (x, y) base values
        self.default = np.nan
        self.defdim = "none"
        self.kind = "linear"

    def xkey(self, x):
        return float("%.9e" % x)

    def put(self, x, y, add):
        new = {}
        for a, b in zip(x, y):
            k = self.xkey(a)
            if k in new:
                new[k] = (a, new[k][1] + b)
            else:
                new[k] = (a, b)
        for k, (a, b) in new.items():
            if k in self.d and add:
                b = b + self.d[k][1]
            self.d[k] = (a, b)

    def x(self):
        return np.array([self.d[k][0] for k in sorted(self.d)])

    def y(self):
        return np.array([self.d[k][1] for k in sorted(self.d)])

    def __call__(self, q):
        q = np.asarray(q, dtype=float)
        x, y = self.x(), self.y()
        if not len(x):
            return np.full(q.shape, float(self.default))
        if self.kind == "linear":
            return np.interp(q, x, y)
        i = np.clip(np.searchsorted(x, q, side="right") - 1, 0, len(x) - 1)
        return y[i]

    def copy(self):
        t = copy.copy(self)
        t.d = dict(self.d)
        return t


def pick(rng, n, kind, pool=None):
    """n different keys"""
    if kind == "int":
        return rng.sample(range(-15, 40), n)
    return [round(x / 8.0, 3) for x in rng.sample(range(-100, 300), n)]


def c_table(c, rng):
    xdim, ydim = rng.choice(["length", "energy", "time", "none"]), rng.choice(["length", "energy", "current", "none"])
    m = Table(rng, xdim, ydim)
    bare = xdim == "none" and rng.random() < 0.7, ydim == "none" and rng.random() < 0.7
    xu0 = "dimensionless" if bare[0] else rng.choice(sorted(FACTORS[xdim]))
    yu0 = "dimensionless" if bare[1] else rng.choice(sorted(FACTORS[ydim]))
    fx, fy = FACTORS[xdim][xu0], FACTORS[ydim][yu0]
    m.kind = rng.choice(["linear"] * 4 + ["previous"])
    kw = {}
    if m.kind != "linear":
        kw["kind"] = m.kind
    if rng.random() < 0.5:
        m.default = rng.choice([0, 1.5, -3, np.nan])
        kw["default"] = m.default if bare[1] or rng.random() < 0.3 else ureg.Quantity(m.default, yu0)
    xkind, ykind = rng.choice(["int", "float"]), rng.choice(["int", "float"])

    def data(fresh=False):
        n = rng.choice([1, 1, 2, 3, 6])
        x = [ureg.Quantity(v if bare[0] else float(v), xu0) for v in pick(rng, n, xkind)]
        x = [v for v in x if m.xkey(float(base(v, xdim))) not in m.d] or [ureg.Quantity(1000 + len(log), xu0)]
        if m.d and not fresh:
            # some of the keys are in the table
            for i, j in zip(range(len(x)), rng.sample(range(len(t.x)), min(len(t.x), len(x)))):
                if rng.random() < 0.5:
                    x[i] = t.x[j]
            u = t.xunits
        else:
            u = x[0].units
        n = len(x)
        bx = np.array([float(base(v, xdim)) for v in x])
        y = [number(rng, ykind) for _ in range(n)]
        by = np.array(y) * fy

        def to(v, unit):
            # only when the key of the table comes back
            w = v.to(unit)
            return w if w.to(u).magnitude == v.to(u).magnitude else v.to(u)

        keys = [v.to(u).magnitude for v in x]
        if bare[0]:
            x = [v.magnitude for v in x]
        elif n > 1 and rng.random() < 0.3:
            x = [to(v, rng.choice(sorted(FACTORS[xdim]))) for v in x]
            if units.asqarray(x).to(u).magnitude.tolist() != keys:
                x = [v.to(u) for v in x]
        else:
            unit = rng.choice(sorted(FACTORS[xdim]))
            w = [to(v, unit) for v in x]
            if any(str(v.units) != str(w[0].units) for v in w):
                w = [v.to(u) for v in w]
            x = ureg.Quantity(np.array([v.magnitude for v in w]), w[0].units)
            if x.to(u).magnitude.tolist() != keys:
                x = ureg.Quantity(np.array(keys), u)
        if n == 1 and rng.random() < 0.4:
            x, y = x[0], y[0]
        elif isinstance(x, list) and rng.random() < 0.4 and bare[0]:
            x, y = np.array(x), np.array(y)
        if not bare[1]:
            y = ureg.Quantity(np.asarray(y, dtype=float) if not np.isscalar(y) else float(y), yu0).to(rng.choice(sorted(FACTORS[ydim])))
        return x, y, bx, by

    log = []
    first = data(fresh=True)
    start = rng.choice(["empty", "empty", "xy", "x"])
    if start == "xy":
        t = lutmod.LUT(x=first[0], y=first[1], **kw)
        m.put(first[2], first[3], True)
    elif start == "x" and "default" in kw and not np.isnan(float(m.default)) and (bare[1] or not isinstance(kw["default"], (int, float))):
        t = lutmod.LUT(x=first[0], **kw)
        m.put(first[2], [m.default * fy] * len(first[2]), True)
    else:
        t = lutmod.LUT(**kw)
    defunit = kw["default"].units if hasattr(kw.get("default"), "units") else None
    known = [(t, m.copy())]
    for _ in range(rng.randint(1, 7)):
        op = rng.choice(["add", "add", "replace", "iadd", "plus", "plus", "merge", "copy", "deepcopy", "json", "pickle", "query", "query", "clear"])
        log.append(op)
        if op in ("add", "replace", "iadd", "plus"):
            x, y, bx, by = data()
            if op == "add":
                t.add(x, y)
            elif op == "replace":
                t.replace(x, y)
            elif op == "iadd":
                t0 = t
                t += (x, y)
                c.require(t is t0, "iadd-other-object", lambda: repr(log))
            else:
                t = t + (x, y)
                known.append((t, None))
            m = m.copy()
            m.put(bx, by, op != "replace")
        elif op == "merge":
            x, y, bx, by = data()
            o = lutmod.LUT()
            m = m.copy()
            if rng.random() < 0.85:
                o.add(x, y)
                m.put(bx, by, True)
            t = t + o
            known.append((t, None))
        elif op == "copy":
            t = copy.copy(t)
            known.append((t, None))
        elif op == "deepcopy":
            t = copy.deepcopy(t)
            known.append((t, None))
        elif op in ("json", "pickle"):
            o = jsonpickle.loads(jsonpickle.dumps(t)) if op == "json" else pickle.loads(pickle.dumps(t))
            c.require(type(o) is type(t) and o == t and not (o != t), "saved-differs", lambda: "%s: %s vs %s" % (op, o, t))
            t = o
            known.append((t, None))
        elif op == "clear":
            if rng.random() < 0.5:
                continue
            t.clear()
            m = m.copy()
            m.d, m.default, defunit = {}, np.nan, None
        known[-1] = (t, m.copy())
        # the table
        info = lambda: "%s after %r (kind %s); expected x=%r y=%r" % (t, log, m.kind, m.x().tolist(), m.y().tolist())
        c.require(len(t) == len(m.d) and t.isempty() == (not m.d), "length", info)
        if m.d:
            c.require(close(base(t.x, xdim), m.x()), "keys", info)
            c.require(close(base(t.y, ydim), m.y(), atol=1e-9 * fy), "values", info)
            xy = list(t)
            c.require(close([base(a, xdim) for a, _ in xy], m.x()) and close([base(b, ydim) for _, b in xy], m.y(), atol=1e-9 * fy), "iteration", info)
            xu, yu = rng.choice(sorted(FACTORS[xdim])), rng.choice(sorted(FACTORS[ydim]))
            xy = list(t.zip(xu, yu))
            c.require(close([base(a, xdim) for a, _ in xy], m.x()) and close([base(b, ydim) for _, b in xy], m.y(), atol=1e-9 * fy), "zip", info)
        # lookup: everywhere, in any units, scalars and arrays
        x = m.x()
        if len(x):
            lo, hi = x[0], x[-1]
            w = max(hi - lo, fx)
            q = [rng.uniform(lo - 0.5 * w, hi + 0.5 * w) for _ in range(4)] + [float(rng.choice(x))]
            if m.kind != "linear":
                q = q[:-1]
            if rng.random() < 0.5 and len(x) > 1:
                i = rng.randrange(len(x) - 1)
                q.append(0.5 * (x[i] + x[i + 1]))
        else:
            q = [number(rng, "float") * fx for _ in range(3)]
        unit = rng.choice(sorted(FACTORS[xdim]))
        arg = np.array(q) / (fx if bare[0] else FACTORS[xdim][unit])
        shape = rng.choice(["array", "list", "scalar"])
        if shape == "scalar":
            arg, q = arg[0], q[0]
            if rng.random() < 0.5:
                arg = float(arg)
        elif shape == "list" and bare[0]:
            arg = arg.tolist()
        if not bare[0]:
            arg = ureg.Quantity(arg, unit)
        got = t(arg)
        exp = m(q)
        c.require(isinstance(got, ureg.Quantity), "lookup-no-quantity", lambda: repr(got))
        if m.d:
            gb = base(got, ydim)
        else:
            gb = np.asarray(got.magnitude, dtype=float)
            c.require(str(got.units) == (str(defunit) if defunit is not None else "dimensionless"), "default-units", lambda: "%r, default %r" % (got, kw))
        ymax = float(np.abs(m.y()).max()) if m.d else 1.0
        c.require(close(gb, exp, rtol=1e-7, atol=1e-9 * ymax + 1e-300), "lookup", lambda: "%r gives %r instead of %r (base units); %s" % (arg, got, np.asarray(exp).tolist(), info()))
        c.event("lookups", np.size(q))
    # others were not touched
    for o, om in known:
        c.require(len(o) == len(om.d) and (not om.d or (close(base(o.x, xdim), om.x()) and close(base(o.y, ydim), om.y(), atol=1e-9 * fy))), "original-modified", lambda: "%s should be %r; %r" % (o, list(zip(om.x(), om.y())), log))
    # equality
    o = copy.deepcopy(t)
    c.require(o == t and not (o != t), "copy-differs", lambda: "%s vs %s" % (o, t))
    how = rng.choice(["value", "key", "kind", "more", "dimension", "empty", "type", "default"])
    if how == "type":
        c.require(not (t == 5) and t != "a", "equal-other-type", lambda: str(t))
    elif how == "default":
        a, b = rng.sample([np.nan, 0, 1, ureg.Quantity(2, "mm")], 2)
        a, b = lutmod.LUT(default=a), lutmod.LUT(default=b)
        c.require(a != b and not (a == b), "equal-other-default", lambda: "%s vs %s" % (a, b))
    elif how == "kind":
        o = lutmod.LUT(kind="nearest", **{k: v for k, v in kw.items() if k == "default"})
        if m.d:
            o.add(t.x, t.y)
        c.require(o != t and not (o == t), "equal-other-kind", lambda: str(t))
    elif m.d:
        if how == "value":
            o.add(t.x[:1], t.y[:1] * 0 + ureg.Quantity(1.0, t.yunits))
        elif how == "key":
            o = lutmod.LUT(**kw)
            o.add(t.x + ureg.Quantity(1.0, t.xunits), t.y)
        elif how == "more":
            o.add(t.x[-1:] + ureg.Quantity(1.0, t.xunits), t.y[-1:])
        elif how == "dimension":
            o = lutmod.LUT(**kw)
            o.add(ureg.Quantity(t.x.magnitude, "kg"), t.y)
        elif how == "empty":
            o = lutmod.LUT(**kw)
        c.require(o != t and not (o == t), "equal-other-table", lambda: "%s: %s vs %s" % (how, o, t))
    c.require("ookup table" in str(t), "str", lambda: str(t))
    c.event("operations", len(log))
    c.key(xdim, ydim, start, log, m.x().tolist(), m.y().tolist())
    c.sample(dict(x=xdim, y=ydim, start=start, operations=log, kind=m.kind))


def c_plot(c, rng):
    import matplotlib.pyplot as plt

    n = rng.choice([0, 1, 2, 5])
    t = lutmod.LUT(default=rng.choice([0, 2.5]))
    x, y = pick(rng, n, "float"), [number(rng, "float") for _ in range(n)]
    if n:
        t.add(ureg.Quantity(x, "keV"), ureg.Quantity(y, "mm"))
    fig = plt.figure()
    try:
        t.plot()
        lines = plt.gca().get_lines()
        c.require(len(lines) == 1, "plot-lines", lambda: "%d lines" % len(lines))
        gx, gy = lines[0].get_xdata(), lines[0].get_ydata()
        if n:
            o = np.argsort(x)
            c.require(close(gx, np.array(x)[o]) and close(gy, np.array(y)[o]), "plot-data", lambda: "%r %r instead of %r %r" % (gx, gy, x, y))
            c.require(plt.gca().get_xlabel() == "keV" and plt.gca().get_ylabel() == "mm", "plot-labels", lambda: plt.gca().get_xlabel())
        else:
            c.require(close(np.unique(gy), [t.default.magnitude]), "plot-default", lambda: repr(gy))
    finally:
        plt.close(fig)
    c.event("plots", 1)
    c.key(n, x, y)
    c.sample(dict(n=n))


def c_spectrum(c, rng):
    """lines (keV) and intensities"""

    def lines(n=None):
        n = n or rng.choice([1, 2, 3, 5])
        e = [round(x, 3) for x in c.np.uniform(2, 20, n)]
        w = [rng.choice([1, 2, round(rng.uniform(0.1, 9), 3)]) for _ in e]
        return e, w

    how = rng.choice(["keV", "keV", "eV", "nm", "angstrom", "bare"])
    e, w = lines()

    def q(e, unit):
        if unit == "bare":
            return rng.choice([list, np.array])(e) if len(e) > 1 else rng.choice([e, e[0]])
        if unit in ("nm", "angstrom"):
            return ureg.Quantity(HC / np.array(e) * (0.1 if unit == "nm" else 1), unit)
        return ureg.Quantity(np.array(e) * (1000 if unit == "eV" else 1), unit)

    x = q(e, how)
    y = w if len(w) > 1 or not np.isscalar(x) else w[0]
    if rng.random() < 0.3:
        y = ureg.Quantity(np.atleast_1d(np.array(w, dtype=float)) * 100, "percent") if not np.isscalar(y) else ureg.Quantity(y * 100.0, "percent")
    s = emspectrum.Discrete(x, y)
    model = {}

    def put(e, w):
        for a, b in zip(e, w):
            model[a] = model.get(a, 0) + b

    put(e, w)
    if rng.random() < 0.6:
        # more lines
        e2, w2 = lines()
        unit = how if how in ("nm", "angstrom", "bare") else rng.choice(["keV", "eV"])
        if unit == how and how != "bare":
            e2 = [rng.choice(e) if rng.random() < 0.3 else v for v in e2]
        s2 = emspectrum.Discrete(q(e2, unit), w2 if len(w2) > 1 else w2[0])
        scale = 100.0 if hasattr(y, "units") else 1.0
        if rng.random() < 0.5:
            s = s + s2
        else:
            s += s2
        put(e2, w2)
    E = np.array(sorted(model))
    I = np.array([model[v] for v in E])
    kw = dict(units=how, lines=E.tolist(), intensities=I.tolist())
    o = np.argsort(s.energies)
    c.require(s.nlines == len(E), "number-of-lines", lambda: "%d; %r" % (s.nlines, kw))
    c.require(close(np.asarray(s.energies)[o], E, rtol=1e-7), "energies", lambda: "%r; %r" % (s.energies, kw))
    k = float(units.Quantity(1.0, s.yunits).to("dimensionless").magnitude)
    c.require(close(np.asarray(s.intensities)[o] * k, I), "intensities", lambda: "%r; %r" % (s.intensities, kw))
    c.require(close(s.total * k, I.sum()), "total", lambda: "%r; %r" % (s.total, kw))
    c.require(close(np.asarray(s.ratios)[o], I / I.sum()), "ratios", lambda: "%r; %r" % (s.ratios, kw))
    # average of a curve over the spectrum
    n = rng.choice([0, 1, 2, 5, 8])
    l = lutmod.LUT(default=rng.choice([0, 0.7]))
    if n:
        cx, cy = np.sort(c.np.uniform(1, 25, n)), c.np.uniform(0, 3, n)
        lu = rng.choice(["keV", "eV", "nm"])
        yu = rng.choice(["dimensionless", "mm"])
        l.add(q(cx.tolist(), lu), ureg.Quantity(cy, yu))
        if lu == "nm":
            exp = np.interp(1 / E, (1 / cx)[::-1], cy[::-1])
        else:
            exp = np.interp(E, cx, cy)
        exp = float(np.sum(exp * I) / I.sum())
    else:
        yu, exp = "dimensionless", float(l.default.magnitude)
    got = s.sample(l)
    c.require(str(got.units) == str(ureg.Unit(yu)) and close(float(got.magnitude), exp, rtol=1e-7), "sampled", lambda: "%r instead of %r; %r" % (got, exp, kw))
    for o in (copy.copy(s), copy.deepcopy(s), jsonpickle.loads(jsonpickle.dumps(s)), pickle.loads(pickle.dumps(s))):
        c.require(type(o) is type(s) and o == s and close(o.energies, s.energies), "spectrum-copy", lambda: "%s vs %s" % (o, s))
    # darkness stays dark
    d = emspectrum.Dark()
    d2 = d + s if rng.random() < 0.5 else d + (ureg.Quantity([5.0, 6.0], "keV"), [1, 2])
    d3 = emspectrum.Dark()
    d3 += s
    for o in (d, d2, d3, jsonpickle.loads(jsonpickle.dumps(d))):
        c.require(isinstance(o, emspectrum.Dark) and o.nlines == 0 and o == d, "dark", lambda: repr(o))
        # probing the dark curve
        c.require(float(s.sample(o).magnitude) == 0, "dark-sampled", lambda: repr(s.sample(o)))
    c.event("spectra", 1)
    c.event("lines", len(E))
    c.key(how, E.tolist(), I.tolist(), n)
    c.sample(dict(kw, curve=n))


def c_units(c, rng):
    dim = rng.choice(sorted(FACTORS))
    F = FACTORS[dim]
    names = sorted(F)
    u1, u2 = rng.choice(names), rng.choice(names)

    def value():
        return rng.choice([rng.randint(-50, 50), round(rng.uniform(-50, 50), 4), float(rng.randint(1, 9))])

    kind = rng.choice(["scalar", "array", "array", "list", "mixed", "2d", "ofquantities"])
    n = rng.randint(1, 5)
    if kind == "scalar":
        raw = value()
        x, b = ureg.Quantity(raw, u1), raw * F[u1]
    elif kind in ("array", "list", "ofquantities"):
        raw = [value() for _ in range(n)]
        x, b = ureg.Quantity(np.array(raw), u1), np.array(raw) * F[u1]
        if kind == "list":
            x = [ureg.Quantity(v, u1) for v in raw]
        elif kind == "ofquantities":
            x = np.empty(n, dtype=object)
            for i, v in enumerate(raw):
                x[i] = ureg.Quantity(v, u1)
    elif kind == "mixed":
        raw = [value() for _ in range(n)]
        us = [u1] + [rng.choice(names) for _ in raw[1:]]
        x, b = [ureg.Quantity(v, u) for v, u in zip(raw, us)], np.array([v * F[u] for v, u in zip(raw, us)])
    else:
        raw = [[value() for _ in range(n)] for _ in range(rng.randint(1, 3))]
        x, b = ureg.Quantity(np.array(raw), u1), np.array(raw) * F[u1]
    atol = 1e-12 * (1e-300 + float(np.max(np.abs(b))))
    kw = dict(dim=dim, kind=kind, x=str(x), to=u2)

    def check(got, sig, unit=None, exp=b):
        c.require(isinstance(got, ureg.Quantity), sig + "-type", lambda: "%r; %r" % (got, kw))
        if unit:
            c.require(str(got.units) == str(ureg.Unit(unit)), sig + "-units", lambda: "%s instead of %s; %r" % (got.units, unit, kw))
        c.require(close(base(got, dim), exp, atol=atol), sig, lambda: "%r; %r" % (got, kw))

    # numbers and quantities with default units
    check(units.Quantity(x, u2), "quantity", u1)
    if kind in ("scalar", "array", "2d"):
        bare = raw if kind == "scalar" or rng.random() < 0.5 else np.array(raw)
        got = units.Quantity(bare, u2)
        check(got, "quantity-number", u2, np.array(raw) * F[u2])
        c.require(close(units.umagnitude(bare, u2), np.array(raw)), "umagnitude-number", lambda: repr(kw))
        same = units.Quantity(bare, forcequantity=False)
        c.require(not isinstance(same, ureg.Quantity) and close(same, raw), "number-stays", lambda: "%r; %r" % (same, kw))
        if dim not in ("none", "angle"):
            try:
                bad = units.magnitude(bare, ureg.Unit(u2))
            except pint.DimensionalityError:
                bad = None
            c.require(bad is None, "number-without-units", lambda: "%r; %r" % (bad, kw))
        c.require(close(units.magnitude(bare, ureg.dimensionless), raw), "magnitude-number", lambda: repr(kw))
        c.require(close(units.magnitude(bare), raw), "magnitude-number", lambda: repr(kw))
    # magnitudes
    m = units.magnitude(x, ureg.Unit(u2))
    c.require(not isinstance(m, ureg.Quantity) and close(np.asarray(m, dtype=float) * F[u2], b, atol=atol), "magnitude", lambda: "%r; %r" % (m, kw))
    m = units.umagnitude(x, u2)
    c.require(close(np.asarray(m, dtype=float) * F[u2], b, atol=atol), "umagnitude", lambda: "%r; %r" % (m, kw))
    if dim not in ("none", "angle"):
        for f in (lambda: units.magnitude(x), lambda: units.umagnitude(x, "kg"), lambda: units.quantity_like(x, ureg.Quantity(1, "kg"))):
            try:
                bad = f()
            except pint.DimensionalityError:
                bad = None
            c.require(bad is None, "other-dimension", lambda: "%r; %r" % (bad, kw))
            c.event("refusals", 1)
    # arrays
    got = units.asqarray(x)
    c.require(isinstance(got, ureg.Quantity) and isinstance(got.magnitude, np.ndarray) and got.magnitude.ndim >= 1, "asqarray-type", lambda: "%r; %r" % (got, kw))
    check(got, "asqarray", u1, np.atleast_1d(b))
    got, restore = units.asqarrayf(x)
    check(got, "asqarrayf", u1, np.atleast_1d(b))
    check(restore(got), "asqarrayf-restore", u1)
    # like another one
    y = ureg.Quantity(rng.choice([1, np.ones(2)]), u2)
    if rng.random() < 0.3:
        y = [ureg.Quantity(1, u2), ureg.Quantity(2, u2)]
    check(units.quantity_like(x, y), "quantity-like", u2)
    try:
        bad = units.quantity_like(x, [ureg.Quantity(1, "kg"), ureg.Quantity(1, "g")])
    except ValueError:
        bad = None
    c.require(bad is None, "like-mixed", lambda: "%r; %r" % (bad, kw))
    # first possible units
    others = ["kg", "kelvin", "mol"]
    check(units.unitsto(x, [rng.choice(others), u2, rng.choice(names)]), "unitsto", u2)
    check(units.unitsto(x, u2), "unitsto", u2)
    try:
        bad = units.unitsto(x, rng.sample(others, 2))
    except RuntimeError:
        bad = None
    c.require(bad is None, "unitsto-impossible", lambda: "%r; %r" % (bad, kw))
    # operations
    op = rng.choice([operator.add, operator.sub, operator.lt, operator.ge])
    if kind in ("scalar", "array", "2d"):
        v2 = value()
        q2 = ureg.Quantity(v2, u2)
        got = units.binary_operator(x, q2, op)
        if op in (operator.add, operator.sub):
            e = op(b, v2 * F[u2])
            c.require(isinstance(got, ureg.Quantity) and close(base(got, dim), e, atol=1e-9 * (np.max(np.abs(b)) + abs(v2 * F[u2]) + 1e-300)), "operator", lambda: "%s %r: %r; %r" % (op.__name__, q2, got, kw))
        else:
            e = op(b, v2 * F[u2])
            near = np.abs(b - v2 * F[u2]) <= 1e-9 * (np.abs(b) + abs(v2 * F[u2]))
            c.require(bool(np.all((np.asarray(got) == e) | near)), "operator", lambda: "%s %r: %r; %r" % (op.__name__, q2, got, kw))
        # bare numbers have the units of the first
        got = units.binary_operator(x, v2, op)
        e = op(np.asarray(raw, dtype=float), v2)
        if op in (operator.add, operator.sub):
            c.require(isinstance(got, ureg.Quantity) and str(got.units) == str(ureg.Unit(u1)) and close(got.magnitude, e, atol=1e-9), "operator-number", lambda: "%s %r: %r; %r" % (op.__name__, v2, got, kw))
        else:
            c.require(bool(np.all(np.asarray(got) == e)), "operator-number", lambda: "%s %r: %r; %r" % (op.__name__, v2, got, kw))
        got = units.binary_operator(v2, raw if kind == "scalar" else np.array(raw), operator.add)
        c.require(not isinstance(got, ureg.Quantity) and close(got, np.asarray(raw, dtype=float) + v2, atol=1e-9), "operator-numbers", lambda: "%r; %r" % (got, kw))
        got = units.astype(x, rng.choice([float, int]) if kind == "scalar" else rng.choice([float, np.float32, int]))
        c.require(str(got.units) == str(ureg.Unit(u1)) and bool(np.all(np.abs(np.asarray(got.magnitude) - np.asarray(raw)) < 1)), "astype", lambda: "%r; %r" % (got, kw))
        # saving
        for how, o in (("json", jsonpickle.loads(jsonpickle.dumps({"a": [x, ureg.Unit(u2)]}))), ("pickle", pickle.loads(pickle.dumps({"a": [x, ureg.Unit(u2)]})))):
            o, u = o["a"]
            c.require(u == ureg.Unit(u2), "unit-saved", lambda: "%s: %r; %r" % (how, u, kw))
            c.require(isinstance(o, ureg.Quantity) and str(o.units) == str(x.units) and np.array_equal(o.magnitude, x.magnitude), "quantity-saved", lambda: "%s: %r; %r" % (how, o, kw))
            (o + x).to(u2)
    c.event("quantities", 1)
    c.key(dim, kind, str(raw), u1, u2)
    c.sample(kw)


GROUPS = [
    Group("tables", c_table, 300, 8000),
    Group("plots", c_plot, 16, 100),
    Group("spectra", c_spectrum, 200, 5000),
    Group("units", c_units, 400, 12000),
]
