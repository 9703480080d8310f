"""Pixel-wise tasks compute what their parameters say, on every pixel and nothing else."""
import os
import re
import h5py
import numpy as np
from lib.vp import Group, Discard
from lib import h5snap
from lib.nx import make_source, task
from spectrocrunch.io import nxfs
from spectrocrunch.process.nxexpression import MathParser

ID = "C09"
LEVEL = "exploration"
RULE = (
    "random NXprocess inputs (1-3 detector groups, 1-4 signals, 2D-4D, every stack dimension, nan pixels) x "
    "crop (user roi, nan borders), replace, minlog and generated expressions x sliced or in memory x skip/copy "
    "patterns; the output file is read with h5py and compared with a numpy reference, the input must be untouched; "
    "generated expression trees against MathParser; non-trivial: at least one pixel must change"
)


def readraw(filename, path):
    """{group: {signal: array}}, {group: [(axis, values, units)]}, {group: [signal names in order]} with h5py only"""
    data, axes, order = {}, {}, {}
    dec = lambda v: v.decode() if isinstance(v, bytes) else v
    with h5py.File(filename, "r", locking=False) as f:
        res = f[path]["results"]
        for g in res:
            if isinstance(res.get(g, getlink=True), h5py.SoftLink):
                continue
            grp = res[g]
            if dec(grp.attrs.get("NX_class")) != "NXdata":
                continue
            names = []
            if "signal" in grp.attrs:
                names.append(dec(grp.attrs["signal"]))
            names += [dec(x) for x in np.atleast_1d(grp.attrs.get("auxiliary_signals", []))]
            order[g] = names
            data[g] = {n: grp[n][()] for n in names}
            axes[g] = [(dec(a), grp[dec(a)][()], dec(grp[dec(a)].attrs.get("units", ""))) for a in grp.attrs.get("axes", [])]
    return data, axes, order


SIGNALS = ["Fe-K", "Si-K", "S-K", "Al-K", "Ce-L"]


def source(c, rng, ndim=None, nan=False, counters=("arr_iodet", "arr_idet", "arr_it", "arr_fl", "arr_x")):
    ndim = ndim or rng.choice([2, 3, 3, 3, 4])
    shape = tuple(rng.randint(2, 5) for _ in range(ndim))
    ndet = rng.randint(1, 2)
    sig = rng.sample(SIGNALS, rng.randint(1, 3))
    groups = {"detector{:02d}".format(i): list(sig) for i in range(ndet)}
    groups["counters"] = list(counters[: rng.randint(1, len(counters))])
    dtype = rng.choice([np.float32, np.float32, np.float64])
    rs = c.np

    def data(group, s, shape):
        a = rs.randint(1, 30, shape) / 4.0
        if nan and rs.rand() < 0.5:
            a[rs.rand(*shape) < 0.1] = np.nan
        return a

    filename = os.path.join(c.dir, "t.h5")
    units = ["", "um", "mm", "um"]
    proc, arrays, axes = make_source(filename, rs, shape=shape, groups=groups, data=data, dtype=dtype, axunits=units)
    return filename, proc, arrays, axes, shape


def run(c, filename, proc, params, info):
    before = h5snap.snapshot(filename, proc.path)
    t = task(proc, **params)
    t.run()
    after = h5snap.snapshot(filename, proc.path)
    c.require(before == after, "pixel:input_modified", lambda: (info(), h5snap.diff(before, after)))
    return t


def compare(c, sig, filename, proc, out, expected, axes, info, rtol=0):
    """expected: {group: {signal: array}}, axes: [(name, values, units)]"""
    data, oaxes, order = readraw(filename, out.path)
    _, _, inorder = readraw(filename, proc.path)
    expected = {g: v for g, v in expected.items() if v}
    c.require({g: sorted(v) for g, v in data.items()} == {g: sorted(v) for g, v in expected.items()}, sig + ":signals",
              lambda: (info(), {g: sorted(v) for g, v in data.items()}))
    for g in expected:
        c.require(len(inorder[g]) != len(expected[g]) or order[g] == inorder[g], sig + ":order", lambda: (info(), order[g], inorder[g]))
        for s, e in expected[g].items():
            a = data[g][s]
            c.require(a.shape == e.shape, sig + ":shape", lambda: (info(), g, s, a.shape, e.shape))
            ok = np.allclose(a, e, rtol=rtol, atol=0, equal_nan=True) if rtol else np.array_equal(a, e, equal_nan=True)
            c.require(ok, sig + ":values", lambda: (info(), g, s, a, e))
            c.event("pixels", a.size)
        got = [(n, v.tolist(), u.replace("\u00b5", "u").replace("\u03bc", "u")) for n, v, u in oaxes[g]]
        want = [(n, np.asarray(v).tolist(), u) for n, v, u in axes]
        c.require(got == want, sig + ":axes", lambda: (info(), got, want))


def common(rng, ndim):
    p = {"sliced": rng.random() < 0.5}
    if rng.random() < 0.7:
        p["stackdim"] = rng.randrange(ndim)
    return p, p.get("stackdim", 0)


def skips(rng, arrays):
    """skip rules and which signals are left"""
    keep = {g: dict(v) for g, v in arrays.items()}
    if rng.random() < 0.5:
        return [], keep
    rules = []
    if rng.random() < 0.5:
        g = rng.choice(sorted(arrays))
        rules.append({"method": "regexparent", "pattern": g})
        keep[g] = {}
    names = sorted({s for v in keep.values() for s in v})
    if names and rng.random() < 0.7:
        s = rng.choice(names)
        rules.append({"method": "regex", "pattern": s[: rng.randint(1, len(s))]})
        pat = rules[-1]["pattern"]
        keep = {g: {k: a for k, a in v.items() if not k.startswith(pat)} for g, v in keep.items()}
    if not any(keep.values()):
        return [], {g: dict(v) for g, v in arrays.items()}
    return rules, keep


def axlist(axes):
    return [(n, v, (a or {}).get("units", "")) for n, v, a in axes]


def crop_roi(c, rng):
    filename, proc, arrays, axes, shape = source(c, rng)
    p, sd = common(rng, len(shape))
    roi = []
    for i, n in enumerate(shape):
        if i != sd:
            a = rng.randrange(n)
            roi.append((a, rng.randint(a + 1, n)))
    p["skip"], keep = skips(rng, arrays)
    g = rng.choice(sorted(keep))
    p.update(method="crop", roi=roi, reference=rng.choice(sorted(arrays[g])))
    info = lambda: (shape, p)
    t = run(c, filename, proc, p, info)
    c.require(t.done, "crop_roi:failed", info)
    full = list(roi)
    full.insert(sd, (0, shape[sd]))
    idx = tuple(slice(a, b) for a, b in full)
    exp = {g: {s: a[idx] for s, a in v.items()} for g, v in keep.items()}
    ax = [(n, v[a:b], u) for (n, v, u), (a, b) in zip(axlist(axes), full)]
    compare(c, "crop_roi", filename, proc, t.output, exp, ax, info)
    if all(r == (0, n) for r, n in zip(full, shape)):
        c.trivial()
    c.key(shape, repr(p))


def crop_nan(c, rng):
    filename, proc, arrays, axes, shape = source(c, rng, ndim=rng.choice([3, 3, 4]))
    ndim = len(shape)
    p, sd = common(rng, ndim)
    g = rng.choice(sorted(arrays))
    ref = rng.choice(sorted(arrays[g]))
    # the last signal with that name is the reference
    gref = [x for x in nxdata_order(filename, proc.path) if ref in arrays.get(x, {})][-1]
    rs = c.np
    nanval = rng.choice(["nan", "float", "value", "value"])
    value = -5.0 if nanval == "value" else np.nan
    arr = arrays[gref][ref].copy()
    others = [i for i in range(ndim) if i != sd]
    mode = rng.choice(["border"] * 4 + ["random", "random", "all", "none"])
    if mode == "border":
        for i in others:
            lo = rng.randint(0, 1)
            hi = rng.randint(0, 1)
            for j in list(range(lo)) + list(range(shape[i] - hi, shape[i])):
                idx = [slice(None)] * ndim
                idx[i] = j
                idx[sd] = rng.randrange(shape[sd]) if rng.random() < 0.7 else slice(None)
                arr[tuple(idx)] = value
    elif mode == "random":
        arr[rs.rand(*shape) < 0.25] = value
    elif mode == "all":
        arr[...] = value
    with h5py.File(filename, "a") as f:
        f[proc.path + "/results/" + gref + "/" + ref][...] = arr
    arrays[gref][ref] = arr
    p["skip"], keep = skips(rng, arrays)
    nv = {"nan": np.nan, "float": float("nan"), "value": value}[nanval]
    p.update(method="crop", nanval=nv, reference=ref)
    nanfull = True
    if rng.random() < 0.4:
        p["nanfull"] = nanfull = rng.random() < 0.5
    info = lambda: (shape, p, mode, gref)
    t = run(c, filename, proc, p, info)
    c.require(t.done, "crop_nan:failed", info)
    bad = np.isnan(arr) if nanval != "value" else arr == value
    valid = ~bad.any(axis=sd)
    full = []
    for k, i in enumerate(others):
        count = np.array([np.take(valid, j, axis=k).sum() for j in range(shape[i])])
        if count.max() == 0:
            full = None
            break
        sel = count == count.max() if nanfull else count > 0
        j = [x for x in range(shape[i]) if sel[x]]
        full.append((j[0], j[-1] + 1))
    if full is None:
        full = [(0, n) for n in shape]
        c.event("nothing_valid")
    else:
        full.insert(sd, (0, shape[sd]))
    idx = tuple(slice(a, b) for a, b in full)
    exp = {g: {s: a[idx] for s, a in v.items()} for g, v in keep.items()}
    ax = [(n, v[a:b], u) for (n, v, u), (a, b) in zip(axlist(axes), full)]
    compare(c, "crop_nan", filename, proc, t.output, exp, ax, info)
    if all(r == (0, n) for r, n in zip(full, shape)):
        c.trivial()
    else:
        c.event("cropped")
    c.key(shape, repr(p), mode)


def nxdata_order(filename, path):
    with h5py.File(filename, "r", locking=False) as f:
        return [g for g in f[path]["results"]]


def replace(c, rng):
    filename, proc, arrays, axes, shape = source(c, rng, nan=True)
    p, sd = common(rng, len(shape))
    p["skip"], keep = skips(rng, arrays)
    flat = np.concatenate([a.ravel() for v in arrays.values() for a in v.values()])
    old = rng.choice(["nan", "float", "value", "value", "absent"])
    oldv = {"nan": np.nan, "float": float("nan"), "value": float(np.nan_to_num(flat[rng.randrange(flat.size)])), "absent": 1e6}[old]
    new = rng.choice([0, -1.5, np.nan, 7.25])
    p.update(method="replace", old=oldv, new=new)
    info = lambda: (shape, p)
    t = run(c, filename, proc, p, info)
    c.require(t.done, "replace:failed", info)
    n = 0
    exp = {}
    for g, v in keep.items():
        exp[g] = {}
        for s, a in v.items():
            m = np.isnan(a) if oldv != oldv else a == oldv
            exp[g][s] = np.where(m, new, a)
            n += m.sum()
    compare(c, "replace", filename, proc, t.output, exp, axlist(axes), info)
    c.event("replaced", int(n))
    if not n:
        c.trivial()
    c.key(shape, repr(p))


def minlog(c, rng):
    filename, proc, arrays, axes, shape = source(c, rng, nan=True)
    p, sd = common(rng, len(shape))
    p["skip"], keep = skips(rng, arrays)
    p.update(method="minlog")
    info = lambda: (shape, p)
    t = run(c, filename, proc, p, info)
    c.require(t.done, "minlog:failed", info)
    exp = {g: {s: -np.log(a.astype(float)) for s, a in v.items()} for g, v in keep.items()}
    compare(c, "minlog", filename, proc, t.output, exp, axlist(axes), info, rtol=1e-5)
    c.key(shape, repr(p))


# ------------------------------------------------------------- expressions
FN1 = ["sin", "cos", "abs", "nanone", "nanzero"]
FNRED = ["max", "min", "mean", "median"]


def tree(rng, names, depth, reduce):
    r = rng.random()
    if depth <= 0 or r < 0.25:
        if rng.random() < 0.65:
            return ("var", rng.choice(names))
        return ("num", rng.choice(["2", "3", "0.5", "1.25", "10", "1e-1", "PI", "E"]))
    if r < 0.7:
        return ("bin", rng.choice("+-*/"), tree(rng, names, depth - 1, reduce), tree(rng, names, depth - 1, reduce))
    if r < 0.78:
        return ("pow", tree(rng, names, depth - 1, reduce), rng.choice(["2", "3"]))
    if r < 0.85:
        return ("neg", tree(rng, names, depth - 1, reduce))
    fns = FN1 + (FNRED if reduce else [])
    return ("fn", rng.choice(fns), tree(rng, names, depth - 1, reduce))


PREC = {"+": 1, "-": 1, "*": 2, "/": 2}


def text(t, rng, fmt, minprec=0, rhs=False):
    k = t[0]
    sp = rng.choice(["", "", " "])
    if k == "var":
        return fmt(t[1])
    if k == "num":
        return t[1]
    if k == "bin":
        p = PREC[t[1]]
        s = text(t[2], rng, fmt, p) + sp + t[1] + sp + text(t[3], rng, fmt, p + 1)
        if p < minprec or rng.random() < 0.2:
            s = "(" + s + ")"
        return s
    if k == "pow":
        base = text(t[1], rng, fmt, 4)
        if t[1][0] not in ("var", "num", "fn"):
            base = "(" + base + ")" if not (base.startswith("(") and balanced(base)) else base
        return "(" + base + "^" + t[2] + ")" if minprec >= 4 else base + "^" + t[2]
    if k == "neg":
        a = text(t[1], rng, fmt, 4)
        if not (t[1][0] in ("var",) or (a.startswith("(") and balanced(a))):
            a = "(" + a + ")"
        return "(-" + a + ")"
    return t[1] + "(" + text(t[2], rng, fmt) + ")"


def balanced(s):
    d = 0
    for i, ch in enumerate(s):
        d += (ch == "(") - (ch == ")")
        if d == 0 and i < len(s) - 1:
            return False
    return True


OPS = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.true_divide}


def value(t, env):
    k = t[0]
    if k == "var":
        return env(t[1])
    if k == "num":
        return {"PI": np.pi, "E": np.e}.get(t[1]) or float(t[1])
    if k == "bin":
        return OPS[t[1]](value(t[2], env), value(t[3], env))
    if k == "pow":
        return value(t[1], env) ** float(t[2])
    if k == "neg":
        return -np.asarray(value(t[1], env))
    a = np.asarray(value(t[2], env), dtype=float)
    f = t[1]
    if f == "nanone":
        return np.where(np.isnan(a), 1.0, a)
    if f == "nanzero":
        return np.where(np.isnan(a), 0.0, a)
    return {"sin": np.sin, "cos": np.cos, "abs": np.abs, "max": np.nanmax, "min": np.nanmin, "mean": np.nanmean, "median": np.nanmedian}[f](a)


def condition(t, env):
    """largest intermediate value (precision and overflow)"""
    m = 0.0

    def walk(t):
        nonlocal m
        v = np.asarray(value(t, env), dtype=float)
        fin = v[np.isfinite(v)] if v.ndim else (v if np.isfinite(v) else np.zeros(0))
        if np.size(fin):
            m = max(m, float(np.max(np.abs(fin))))
        for x in t[1:]:
            if isinstance(x, tuple):
                walk(x)

    walk(t)
    return m


def close(a, e, scale):
    a, e = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(e, dtype=float))
    fin = np.isfinite(e)
    return bool(np.array_equal(np.isfinite(a), fin) and np.array_equal(a[~fin], e[~fin], equal_nan=True) and
                np.allclose(a[fin], e[fin], rtol=1e-4, atol=1e-4 * max(1.0, scale)))


def expression(c, rng):
    filename, proc, arrays, axes, shape = source(c, rng, nan=True)
    p, sd = common(rng, len(shape))
    p["skip"], keep = skips(rng, arrays)
    flat = {}
    for g, v in arrays.items():
        for s in v:
            flat.setdefault(s, []).append(g)
    names = sorted(s for s, gs in flat.items() if len(gs) == 1)
    nfixed = rng.choice([0, 0, 1, 2, 5])
    fixed = names[:nfixed]
    # every variable is used
    for _ in range(20):
        t = tree(rng, [""] + fixed, rng.randint(1, 4), not p["sliced"])
        for n in fixed:
            if rng.random() < 0.8:
                t = ("bin", rng.choice("+-*"), t, ("var", n))
        t = ("bin", rng.choice("+*-"), t, ("var", "")) if rng.random() < 0.9 or "{}" else t
        ok = True
        scale = 0
        with np.errstate(all="ignore"):
            for g, v in keep.items():
                for s in v:
                    env = lambda n: arrays[g][s].astype(float) if n == "" else arrays[flat[n][0]][n].astype(float)
                    scale = max(scale, condition(t, env))
        if scale < 1e4:
            break
    else:
        raise Discard
    expr = text(t, rng, lambda n: "{" + n + "}")
    p.update(method="expression", expression=expr)
    copied = set()
    if rng.random() < 0.4:
        s = rng.choice(sorted(flat))
        p["copy"] = [{"method": "regex", "pattern": s + "$"}]
        copied = {(g, s) for g in flat[s]}
    info = lambda: (shape, p)
    tsk = run(c, filename, proc, p, info)
    c.require(tsk.done, "expression:failed", info)
    data, _, _ = readraw(filename, tsk.output.path)
    for g, v in keep.items():
        for s in v:
            env = lambda n: arrays[g][s].astype(float) if n == "" else arrays[flat[n][0]][n].astype(float)
            with np.errstate(all="ignore"):
                e = arrays[g][s] if (g, s) in copied else np.broadcast_to(value(t, env), shape)
            c.require(g in data and s in data[g], "expression:missing_signal", lambda: (info(), g, s))
            a = data[g][s]
            c.require(a.shape == e.shape, "expression:shape", lambda: (info(), a.shape))
            c.require(close(a, e, scale), "expression:values", lambda: (info(), g, s, a, e))
            c.event("copied" if (g, s) in copied else "calculated")
    c.require({g: set(v) for g, v in data.items()} == {g: set(v) for g, v in keep.items() if v}, "expression:signals", info)
    c.key(expr, shape, repr(p))


def parser(c, rng):
    nvar = rng.randint(1, 3)
    names = ["a", "b", "c", "bb"][:nvar]
    shape = (rng.randint(1, 3), rng.randint(1, 3))
    vals = {}
    for n in names:
        a = c.np.randint(1, 30, shape) / 4.0
        if rng.random() < 0.5:
            a[c.np.rand(*shape) < 0.2] = np.nan
        vals[n] = a
    t = tree(rng, names, rng.randint(1, 5), True)
    with np.errstate(all="ignore"):
        try:
            scale = condition(t, lambda n: vals[n])
        except ValueError:
            raise Discard
        if scale > 1e4:
            raise Discard
        e = value(t, lambda n: vals[n])
    s = text(t, rng, lambda n: "var_" + n)
    keep = {n: v.copy() for n, v in vals.items()}
    m = MathParser()
    with np.errstate(all="ignore"):
        for i in range(2):
            a = m.eval(s, variables=dict(vals))
            c.require(close(a, e, scale), "parser:value", lambda: (s, vals, a, e))
            c.require(all(np.array_equal(vals[n], keep[n], equal_nan=True) for n in names), "parser:argument_modified", lambda: (s, vals, keep))
    c.event("expressions")
    if t[0] in ("var", "num"):
        c.trivial()
    c.key(s)


GROUPS = [
    Group("crop_roi", crop_roi, 24, 400, timeout=120),
    Group("crop_nan", crop_nan, 72, 700, timeout=120),
    Group("replace", replace, 24, 400, timeout=120),
    Group("minlog", minlog, 12, 150, timeout=120),
    Group("expression", expression, 40, 600, timeout=120),
    Group("parser", parser, 800, 20000),
]
MIN_EVENTS = {"calculated": 40, "cropped": 5, "replaced": 20, "expressions": 300}
