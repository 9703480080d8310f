"""Axes: simplification, unit conversion, resizing and lookup never lose or move positions."""
import copy
import difflib
import numpy as np
from lib.vp import Group, Discard
from spectrocrunch.process import axis
from spectrocrunch.utils import units

ID = "C13"
LEVEL = "exploration"
RULE = (
    "random axes (number, regular, regular with increment, segments, irregular, zap/ascan scans, nominal) with random "
    "units, precision, titles; histories of unit changes, setters, new limits and lookups compared with plain numpy "
    "arrays in base units; non-trivial: more than one value"
)

LEN = ["um", "mm", "m", "nm"]
FACT = {"nm": 1e-9, "um": 1e-6, "mm": 1e-3, "m": 1.0}


def close(a, b, rtol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    scale = max(np.max(np.abs(b)) if b.size else 0, 1e-30)
    return bool(np.all(np.abs(a - b) <= rtol * scale))


def random_values(rng, rs):
    kind = rng.choice(["number", "two", "regular", "segments", "irregular", "decreasing", "parabola"])
    if kind == "number":
        v = [rng.uniform(-10, 10)]
    elif kind == "two":
        v = [rng.uniform(-10, 10), rng.uniform(11, 20)]
    elif kind == "regular":
        v = rng.randint(-5, 5) + rng.choice([1, 0.5, 2, 0.25]) * np.arange(rng.randint(3, 12))
    elif kind == "decreasing":
        v = rng.randint(-5, 5) - rng.choice([1, 0.5, 2]) * np.arange(rng.randint(3, 12))
    elif kind == "segments":
        v = [float(rng.randint(-5, 5))]
        for _ in range(rng.randint(2, 3)):
            s = rng.choice([1, 0.5, 2, 4])
            for _ in range(rng.randint(4, 8)):
                v.append(v[-1] + s)
    elif kind == "parabola":
        v = rng.choice([0.04, 0.01, 0.3]) * np.arange(rng.randint(5, 40)) ** 2 + np.arange(1)
    else:
        v = np.cumsum(rs.rand(rng.randint(3, 10)) + 0.1)
    return kind, np.asarray(v, dtype=float)


def check(c, sig, ax, ref, unit, info, tol=1e-9):
    """ax holds the positions `ref` (in `unit`)"""
    got = ax.umagnitude(unit) if unit else ax.magnitude
    c.require(close(got, ref, tol), sig + ":values", lambda: (info(), got, ref))
    c.require(ax.size == len(ax) == len(ref), sig + ":size", lambda: (info(), ax.size, len(ref)))
    u = units.ureg.Unit(unit or "dimensionless")
    c.require(close(ax.start.to(u).magnitude, ref[0], tol) or abs(ax.start.to(u).magnitude - ref[0]) < 1e-9, sig + ":start", lambda: (info(), ax.start, ref))
    c.require(abs(ax.end.to(u).magnitude - ref[-1]) <= 1e-9 * max(1, np.max(np.abs(ref))), sig + ":end", lambda: (info(), ax.end, ref))
    # consistent units everywhere
    c.require(ax.units == ax.values.units == ax.start.units, sig + ":units", lambda: (info(), ax.units, ax.values.units, ax.start.units))
    c.require(close(ax.magnitude, ax.values.magnitude), sig + ":magnitude", info)


def simplify(c, rng):
    kind, v = random_values(rng, c.np)
    unit = rng.choice(LEN + [None])
    q = units.Quantity(v, units=unit) if unit else v
    prec = rng.choice([None, None, 0.0, 1e-6, 0.1])
    name, title = rng.choice([None, "y"]), rng.choice([None, "vertical"])
    ax0 = axis.Axis(q, name=name, title=title, precision=prec)
    ax = axis.factory(q, name=name, title=title, precision=prec)
    info = lambda: (kind, v.tolist(), unit, prec, type(ax).__name__)
    p = prec or 0
    got = ax.umagnitude(unit) if unit else ax.magnitude
    c.require(got.shape == v.shape, "simplify:size", info)
    dev = np.max(np.abs(got - v))
    c.require(dev <= p + 1e-9 * max(1, np.max(np.abs(v))), "simplify:positions_moved", lambda: (info(), dev, got))
    c.require((name is None or ax.name == name) and ax.units == (units.ureg.Unit(unit) if unit else units.dimensionless), "simplify:name_units", info)
    t = ax.title
    c.require(t.startswith(title or ax.name) and (not unit or "({:~})".format(ax.units) in t), "simplify:title", lambda: (info(), t))
    if prec is None or prec >= 1e-6:
        if dev <= 1e-12 or prec:
            c.require(ax0 == ax if p else close(got, v), "simplify:equal", info)
    # idempotent
    ax2 = axis.factory(ax)
    c.require(type(ax2) is type(ax) and close(ax2.magnitude, ax.magnitude), "simplify:idempotent", lambda: (info(), ax2))
    # same object kinds
    if kind == "regular":
        c.require(isinstance(ax, axis._AxisRegular), "simplify:regular", info)
    if kind == "segments" and isinstance(ax, axis.AxisSegments):
        c.event("segments")
    c.event("simplified_" + type(ax).__name__)
    if v.size == 1:
        c.trivial()
    c.key(kind, repr(v.tolist()), unit, prec)


def build(rng, rs):
    """axis and its positions (in unit)"""
    unit = rng.choice(LEN)
    kind = rng.choice(["number", "regular", "inc", "segments", "irregular", "zap", "ascan", "arange"])
    s = rng.choice([0.5, 1.0, 2.0, -1.0, -0.25])
    a = float(rng.randint(-10, 10))
    n = rng.randint(2, 9)
    Q = lambda x: units.Quantity(x, units=unit)
    if kind == "number":
        return kind, unit, axis.AxisNumber(Q(a)), np.array([a])
    if kind == "regular":
        return kind, unit, axis.AxisRegular(Q(a), Q(a + s * n), n), a + s * np.arange(n + 1)
    if kind == "inc":
        return kind, unit, axis.AxisRegularInc(Q(a), Q(s), n), a + s * np.arange(n + 1)
    if kind == "ascan":
        return kind, unit, axis.ascan(a, a + s * n, n, unit=unit), a + s * np.arange(n + 1)
    if kind == "zap":
        return kind, unit, axis.zapscan(a, a + s * n, n, unit=unit), a + s * (np.arange(n) + 0.5)
    if kind == "arange":
        return kind, None, axis.arange(n + 1), np.arange(n + 1.0)
    if kind == "segments":
        sg = 1 if s > 0 else -1
        lim = [a]
        steps = []
        v = [a]
        for _ in range(rng.randint(1, 4)):
            st = sg * rng.choice([0.5, 1.0, 2.0])
            k = rng.randint(1, 5)
            for _ in range(k):
                v.append(v[-1] + st)
            lim.append(v[-1])
            steps.append(k)
        return kind, unit, axis.AxisSegments(Q(np.array(lim)), steps), np.array(v)
    v = np.cumsum(rs.rand(n + 2) + 0.1)
    return kind, unit, axis.Axis(Q(v)), v


def history(c, rng):
    """operations on axes"""
    kind, unit, ax, ref = build(rng, c.np)
    log = []
    info = lambda: (kind, unit, log)
    check(c, "history:new", ax, ref, unit, info)
    others = []
    for _ in range(rng.randint(1, 6)):
        op = rng.choice(["to", "units", "start", "end", "stepsize", "size", "nsteps", "copy", "eq"])
        log.append(op)
        if op in ("to", "units"):
            if unit is None:
                continue
            new = rng.choice(LEN)
            log[-1] = (op, new)
            if op == "to":
                keep = (ax, ref.copy(), unit)
                others.append(keep)
                ax = ax.to(new)
            else:
                ax.units = new
            ref = ref * (FACT[unit] / FACT[new])
            unit = new
            c.require(ax.units == units.ureg.Unit(unit), "history:unit", info)
        elif op == "copy":
            others.append((copy.deepcopy(ax), ref.copy(), unit))
        elif op == "eq":
            c.require(ax == copy.deepcopy(ax), "history:eq_self", info)
            other = axis.Axis(units.Quantity(ref + np.abs(ref).max() + 1, units=unit))
            c.require(ax != other, "history:ne", info)
            c.require(ax != axis.Axis(units.Quantity(np.append(ref, ref[-1] + 1), units=unit)), "history:ne_size", info)
        else:
            if kind not in ("regular", "ascan", "inc", "zap", "arange"):
                continue
            regular = isinstance(ax, axis.AxisRegular)
            n = len(ref) - 1
            if op == "start":
                x = ref[0] + rng.choice([-1.0, 0.5]) * abs(ref[1] - ref[0])
                ax.start = units.Quantity(x, units=unit)
                ref = np.linspace(x, ref[-1], n + 1) if regular else x + (ref[1] - ref[0]) * np.arange(n + 1)
            elif op == "end":
                if not regular:
                    continue
                x = ref[-1] + 0.5 * (ref[1] - ref[0])
                ax.end = units.Quantity(x, units=unit)
                ref = np.linspace(ref[0], x, n + 1)
            elif op == "stepsize":
                if regular:
                    continue
                st = (ref[1] - ref[0]) * rng.choice([2.0, 0.5])
                ax.stepsize = units.Quantity(st, units=unit)
                ref = ref[0] + st * np.arange(n + 1)
            else:
                m = rng.randint(2, 9)
                st = ref[1] - ref[0]
                if op == "size":
                    ax.size = m
                else:
                    ax.nsteps = m - 1
                ref = np.linspace(ref[0], ref[-1], m) if regular else ref[0] + st * np.arange(m)
        check(c, "history:" + op, ax, ref, unit, info)
        for o, r, u in others:
            check(c, "history:other_axis_changed", o, r, u, info)
        if isinstance(ax, axis._AxisRegular) and len(ref) > 1:
            st = ax.stepsize.to(units.ureg.Unit(unit or "dimensionless")).magnitude
            c.require(abs(st - (ref[1] - ref[0])) <= 1e-9 * max(1, abs(ref).max()), "history:stepsize", lambda: (info(), st, ref))
        if len(ref) > 1:
            u = units.ureg.Unit(unit or "dimensionless")
            tolr = 1e-9 * max(1, abs(ref).max())
            c.require(abs(ax.start_stepsize.to(u).magnitude - (ref[1] - ref[0])) <= tolr, "history:start_stepsize", lambda: (info(), ax.start_stepsize, ref))
            c.require(abs(ax.end_stepsize.to(u).magnitude - (ref[-1] - ref[-2])) <= tolr, "history:end_stepsize", lambda: (info(), ax.end_stepsize, ref))
        c.event("axis_operations")
    if not log or len(ref) == 1:
        c.trivial()
    c.key(kind, unit, repr(log), repr(ref.tolist()))


def limits(c, rng):
    """expand or crop: old positions stay where they are, new limits are included"""
    while True:
        kind, unit, ax, ref = build(rng, c.np)
        if kind in ("regular", "inc", "zap", "ascan", "arange", "segments", "irregular"):
            break
    s0, s1 = ref[1] - ref[0], ref[-1] - ref[-2]
    uniform = np.allclose(np.diff(ref), s0)
    n = len(ref)
    side = rng.choice(["start", "end", "both"])

    def newlim(which):
        # number of steps to add (negative: remove)
        k = rng.uniform(0, 4) if (not uniform or rng.random() < 0.5) else -rng.uniform(0, n // 2 - 1 if n > 3 else 0.5)
        if rng.random() < 0.3:
            k = float(round(k))
        return (ref[0] - k * s0) if which == "start" else (ref[-1] + k * s1), k

    a, ka = newlim("start")
    b, kb = newlim("end")
    form = rng.choice(["number", "quantity", "other_unit"]) if unit else "number"

    def wrap(x):
        if form == "number":
            return x
        if form == "quantity":
            return units.Quantity(x, units=unit)
        return units.Quantity(x, units=unit).to(rng.choice(LEN))

    info = lambda: (kind, unit, ref.tolist(), side, a, ka, b, kb, form)
    keep = ref.copy()
    if side == "start":
        new = ax.newstart(wrap(a))
    elif side == "end":
        new = ax.newend(wrap(b))
    else:
        new = ax.newlimits(wrap(a), wrap(b))
    c.require(new is not None, "limits:none", info)
    check(c, "limits:original", ax, keep, unit, info)
    v = new.umagnitude(unit) if unit else new.magnitude
    sg = 1 if s0 > 0 else -1
    tol = 1e-6 * abs(s0)
    d = np.diff(v)
    c.require((sg * d > 0).all(), "limits:monotonic", lambda: (info(), v))
    if side in ("start", "both"):
        c.require(sg * (v[0] - a) <= tol, "limits:start_included", lambda: (info(), v))
        c.require(sg * (v[0] - a) > -abs(s0) - tol, "limits:start_excess", lambda: (info(), v))
    else:
        c.require(abs(v[0] - ref[0]) <= tol, "limits:start_kept", lambda: (info(), v))
    if side in ("end", "both"):
        c.require(sg * (b - v[-1]) <= tol, "limits:end_included", lambda: (info(), v))
        c.require(sg * (b - v[-1]) > -abs(s1) - tol, "limits:end_excess", lambda: (info(), v))
    else:
        c.require(abs(v[-1] - ref[-1]) <= tol, "limits:end_kept", lambda: (info(), v))
    # the old positions inside the new range are still there
    lo, hi = min(v[0], v[-1]) - tol, max(v[0], v[-1]) + tol
    for x in ref:
        if lo <= x <= hi:
            c.require(np.min(np.abs(v - x)) <= tol, "limits:position_lost", lambda: (info(), x, v))
    # no others, except steps of the same size
    for x in v:
        if min(ref[0], ref[-1]) - tol <= x <= max(ref[0], ref[-1]) + tol:
            c.require(np.min(np.abs(ref - x)) <= tol, "limits:position_added", lambda: (info(), x, v))
    k = [x for x in d if x]
    c.event("new_limits")
    c.key(kind, unit, repr(ref.tolist()), side, a, b, form)


def locate(c, rng):
    kind = rng.choice(["number", "number", "string", "object"])
    if kind == "number":
        k, unit, ax, ref = build(rng, c.np)
        x = rng.uniform(ref.min() - 1, ref.max() + 1)
        form = rng.choice(["number", "quantity", "list", "axis", "none"])
        if form == "none":
            c.require(ax.locate(None) == slice(None), "locate:none", "")
            c.trivial()
            return
        xs = [rng.uniform(ref.min() - 1, ref.max() + 1) for _ in range(3)]
        if form == "number":
            got = [ax.locate(x)]
            xs = [x]
        elif form == "quantity":
            if unit is None:
                raise Discard
            got = [ax.locate(units.Quantity(x, units=unit).to(rng.choice(LEN)))]
            xs = [x]
        elif form == "list":
            got = ax.locate(xs)
        else:
            if unit is None:
                raise Discard
            o = axis.Axis(units.Quantity(np.array(xs), units=unit).to(rng.choice(LEN)))
            got = ax.locate(o)
        c.require(len(got) == len(xs), "locate:length", "")
        for i, x in zip(got, xs):
            d = np.abs(ref - x)
            c.require(0 <= int(i) < len(ref) and d[int(i)] <= d.min() + 1e-9, "locate:closest", lambda: (k, unit, ref, x, i))
            c.event("located")
        c.key(kind, form, unit, repr(ref.tolist()), repr(xs))
    elif kind == "string":
        names = rng.sample(["Fe-K", "Si-K", "S-K", "Al-K", "Ce-L", "arr_iodet", "arr_idet"], rng.randint(2, 6))
        ax = axis.factory(names, type="nominal")
        w = rng.choice(names)
        c.require(ax.locate(w) == names.index(w), "locate:string", lambda: (names, w))
        ws = [rng.choice(names) for _ in range(3)]
        c.require(ax.locate(ws) == [names.index(w) for w in ws], "locate:strings", lambda: (names, ws))
        q = rng.choice(["Fe", "iodet", "Ce", "SK"])
        got = ax.locate(q)
        ratios = []
        for x in names:
            s = difflib.SequenceMatcher()
            s.set_seq2(q)
            s.set_seq1(x)
            ratios.append(s.ratio())
        c.require(ratios[got] == max(ratios), "locate:closest_string", lambda: (names, q, got, ratios))
        io, inew = ax.interpolate(ws)
        c.require(list(io) == list(range(len(names))) and list(inew) == [names.index(w) for w in ws], "locate:interpolate_nominal", lambda: (names, ws, inew))
        c.event("located")
        c.key(kind, repr(names), repr(ws), q)
    else:
        vals = rng.sample(range(100), 5)
        ax = axis.factory(vals, type="nominal")
        i = rng.randrange(5)
        c.require(ax.locate(vals[i]) == i, "locate:index", lambda: (vals, i))
        try:
            ax.locate(1000)
        except ValueError:
            pass
        else:
            c.require(False, "locate:absent_accepted", "")
        c.key(kind, repr(vals), i)


def interpolate(c, rng):
    """pairs for interpolation: same increasing scale for old and new positions"""
    while True:
        k, unit, ax, ref = build(rng, c.np)
        if len(ref) > 1:
            break
    xs = np.array([rng.uniform(ref.min(), ref.max()) for _ in range(3)])
    form = rng.choice(["array", "quantity", "none"])
    if form == "none":
        old, new = ax.interpolate(None)
        xs = ref
    elif form == "quantity" and unit:
        old, new = ax.interpolate(units.Quantity(xs, units=unit).to(rng.choice(LEN)))
    else:
        old, new = ax.interpolate(xs)
    old, new = np.asarray(old), np.asarray(new)
    c.require((np.diff(old) > 0).all(), "interpolate:increasing", lambda: (k, ref, old))
    # a function of position interpolated with these gives the position
    got = np.interp(new, old, ref)
    c.require(np.allclose(got, xs, rtol=1e-9, atol=1e-9), "interpolate:positions", lambda: (k, unit, ref, xs, got))
    c.event("interpolation_pairs")
    c.key(k, unit, repr(ref.tolist()), repr(xs.tolist()), form)


GROUPS = [
    Group("simplify", simplify, 600, 12000),
    Group("history", history, 500, 12000),
    Group("limits", limits, 500, 12000),
    Group("locate", locate, 400, 6000),
    Group("interpolate", interpolate, 200, 4000),
]
MIN_EVENTS = {"axis_operations": 500, "new_limits": 300, "located": 200}
