"""Resampling on encoder positions puts every value at the position it was measured."""
import os
import numpy as np
from lib.vp import Group, Discard
from lib import h5snap
from lib.nx import make_source, task
from checks.c09 import readraw
from spectrocrunch.math import interpolate

ID = "C10"
LEVEL = "exploration"
RULE = (
    "random maps (2D/3D, increasing or decreasing axes, 1-3 stack images) whose pixels were measured at irregular "
    "encoder positions (jitter, drift, shear, offset, other resolution/units) x crop/no crop x degree 0/1 x given or "
    "fitted offset; signals are known functions of the real position, so the value at each resampled position is "
    "known; interpolate_regular/interpolate_irregular/floor/ceil/extrapolation against analytical references; "
    "non-trivial: at least one axis with encoder"
)


def resample(c, rng):
    dims = rng.choice(["y", "y", "yz", "z"])
    ns = rng.randint(1, 3)
    ny, nz = rng.randint(4, 8), rng.randint(4, 7)
    shape = (ns, ny, nz)
    steps = {"y": rng.choice([1.0, 2.0, 0.5, -1.5]), "z": rng.choice([1.0, 3.0, -0.5])}
    start = {"y": rng.choice([0.0, 10.0, -3.0]), "z": rng.choice([0.0, 5.0])}
    n = {"y": ny, "z": nz}
    unit = rng.choice(["um", "mm"])
    axv = {k: start[k] + steps[k] * np.arange(n[k]) for k in "yz"}
    res = {k: rng.choice([1.0, 2.0, 5.0, 0.1]) for k in "yz"}
    enc_offset = {k: rng.choice([0.0, 100.0, -7.5]) for k in "yz"}
    sd = 0
    Y, Z = np.meshgrid(axv["y"], axv["z"], indexing="ij")
    true = {}
    shape2 = (ns, ny, nz)
    jit = rng.choice([0.0, 0.1, 0.3])
    shear = rng.choice([0.0, 0.0, 0.6])
    for k, base, other in (("y", Y, Z), ("z", Z, Y)):
        t = np.broadcast_to(base, shape2).copy()
        t += (c.np.rand(*shape2) - 0.5) * jit * abs(steps[k])
        ok = "z" if k == "y" else "y"
        t += shear * steps[k] * (other - start[ok]) / (steps[ok] * (n[ok] - 1))
        true[k] = t
    enc = {k: true[k] * res[k] + enc_offset[k] for k in "yz"}
    coef = {s: (rng.uniform(-5, 5), rng.uniform(-3, 3) if "y" in dims else 0, rng.uniform(-3, 3) if "z" in dims else 0) for s in ("Fe-K", "Si-K")}
    linear = rng.random() < 0.75

    def func(s, y, z):
        a, b, d = coef[s]
        return a + b * y + d * z

    rand = c.np.rand(*shape2)

    def data(group, s, shp):
        if s == "arr_samy":
            return enc["y"]
        if s == "arr_samz":
            return enc["z"]
        if s == "noise":
            return rand
        y = true["y"] if "y" in dims else np.broadcast_to(Y, shape2)
        z = true["z"] if "z" in dims else np.broadcast_to(Z, shape2)
        return func(s, y, z)

    filename = os.path.join(c.dir, "t.h5")
    axes = [("x", np.arange(ns) * 1.0, None), ("y", axv["y"], {"units": unit}), ("z", axv["z"], {"units": unit})]
    proc, arrays, _ = make_source(
        filename, c.np, shape=shape, groups={"detector00": ["Fe-K", "Si-K"], "counters": ["arr_samy", "arr_samz", "noise"]}, data=data, axes=axes, dtype=np.float64
    )
    encoders = {}
    for k in dims:
        encoders[k] = {"counter": "arr_sam" + k, "resolution": res[k]}
        if rng.random() < 0.5:
            encoders[k]["offset"] = enc_offset[k]
    if rng.random() < 0.2:
        encoders["x"] = {"counter": "missing", "resolution": 1}
    p = {"method": "resample", "encoders": encoders, "crop": rng.random() < 0.5, "degree": rng.choice([1, 1, 1, 0])}
    if rng.random() < 0.3:
        p["cval"] = -999.0
    skipped = rng.choice([[], [], ["noise"], ["noise", "Si-K"]])
    if skipped:
        p["skip"] = [{"method": "regex", "pattern": s} for s in skipped]
    cval = p.get("cval", np.nan)
    info = lambda: (dims, shape, unit, steps, start, res, enc_offset, jit, shear, p)
    before = h5snap.snapshot(filename, proc.path)
    t = task(proc, **p)
    t.run()
    c.require(t.done, "resample:failed", info)
    c.require(h5snap.snapshot(filename, proc.path) == before, "resample:input_modified", info)
    out, oaxes, _ = readraw(filename, t.output.path)
    import h5py

    with h5py.File(filename, "r") as f:
        offs = dict(zip("xyz", np.asarray(f[t.output.path + "/results/encoder_offset"][()], dtype=float)))
    c.require({g: set(v) for g, v in out.items()} == {"detector00": {"Fe-K", "Si-K"} - set(skipped), "counters": {"arr_samy", "arr_samz", "noise"} - set(skipped)}, "resample:signals", lambda: (info(), out.keys()))
    new = {}
    for g, ax in oaxes.items():
        c.require([a[0] for a in ax] == ["x", "y", "z"], "resample:axis_names", lambda: (info(), ax))
        for name, v, u in ax:
            new.setdefault(name, v)
            c.require(np.array_equal(new[name], v), "resample:axes_differ", info)
    c.require(np.array_equal(new["x"], np.arange(ns)), "resample:stack_axis", info)
    for k in "yz":
        v = new[k]
        if k not in dims:
            c.require(np.array_equal(v, axv[k]), "resample:axis_untouched", lambda: (info(), k, v))
            c.require(offs[k] == 0, "resample:offset_none", info)
            continue
        if "offset" in encoders[k]:
            c.require(abs(offs[k] - enc_offset[k]) < 1e-6, "resample:offset_given", lambda: (info(), offs))
        if v.size > 1:
            d = np.diff(v)
            c.require(np.allclose(d, steps[k], rtol=1e-6, atol=1e-9), "resample:step", lambda: (info(), k, v))
        # grid points coincide with the measured range (+- one step)
        e = v * res[k] + offs[k]
        i = {"y": 1, "z": 2}[k]
        first = np.take(enc[k], 0, axis=i)
        last = np.take(enc[k], -1, axis=i)
        inc = steps[k] > 0
        if p["crop"]:
            lim0, lim1 = (first.max(), last.min()) if inc else (first.min(), last.max())
        else:
            lim0, lim1 = (first.min(), last.max()) if inc else (first.max(), last.min())
        sgn = 1 if inc else -1
        est = abs(steps[k] * res[k])
        tol = 1e-6 * max(1, est)
        if v.size > 1:
            c.require(sgn * (e[0] - lim0) <= tol and sgn * (e[0] - lim0) > -est - tol, "resample:start", lambda: (info(), k, e, lim0))
            c.require(sgn * (lim1 - e[-1]) <= tol and sgn * (lim1 - e[-1]) > -est - tol, "resample:end", lambda: (info(), k, e, lim1))
    c.event("grid_points", int(np.prod([x.size for x in new.values()])))
    eshape = (new["x"].size, new["y"].size, new["z"].size)
    inside = 0
    for g in out:
        for s, a in out[g].items():
            c.require(a.shape == eshape, "resample:shape", lambda: (info(), a.shape, eshape))
    iscval = (lambda a: np.isnan(a)) if cval != cval else (lambda a: a == cval)
    rngpts = {k: new[k] * res[k] + offs[k] if k in dims else None for k in "yz"}
    tolv = 1e-6
    if len(dims) == 1:
        k = dims
        i = {"y": 1, "z": 2}[k]
        for stack in range(ns):
            for o in range(n["z" if k == "y" else "y"]):
                sel = (stack, slice(None), o) if k == "y" else (stack, o, slice(None))
                line = enc[k][sel]
                e = rngpts[k]
                lo, hi = line.min(), line.max()
                inr = (e > lo + tolv) & (e < hi - tolv)
                outr = (e < lo - tolv) | (e > hi + tolv)
                for s, g in (("Fe-K", "detector00"), ("Si-K", "detector00"), ("noise", "counters"), ("arr_sam" + k, "counters")):
                    if s in skipped:
                        continue
                    a = out[g][s][sel]
                    c.require(iscval(a[outr]).all(), "resample:extrapolated", lambda: (info(), s, sel, a, e, line))
                    src = arrays[g][s][sel]
                    order = np.argsort(line)
                    if p["degree"] == 1:
                        ref = np.interp(e[inr], line[order], src[order])
                        c.require(np.allclose(a[inr], ref, rtol=1e-5, atol=1e-5), "resample:line", lambda: (info(), s, sel, a, ref, e, line))
                    else:
                        for x, v in zip(e[inr], a[inr]):
                            dist = abs(line - x)
                            near = src[dist <= dist.min() + 1e-6]
                            c.require(np.any(np.isclose(v, near, rtol=1e-6, atol=1e-6)), "resample:nearest", lambda: (info(), s, x, v, near))
                    if p["degree"] == 1 and s in coef:
                        tr = (e[inr] - enc_offset[k]) / res[k]
                        other = axv["z" if k == "y" else "y"][o]
                        ref = func(s, tr, other) if k == "y" else func(s, other, tr)
                        c.require(np.allclose(a[inr], ref, rtol=1e-5, atol=1e-5), "resample:position", lambda: (info(), s, a, ref))
                    inside += int(inr.sum())
    else:
        ty = (rngpts["y"] - enc_offset["y"]) / res["y"]
        tz = (rngpts["z"] - enc_offset["z"]) / res["z"]
        PY, PZ = np.meshgrid(ty, tz, indexing="ij")
        from scipy.spatial import Delaunay

        for stack in range(ns):
            pts = np.stack([true["y"][stack].ravel() / abs(steps["y"]), true["z"][stack].ravel() / abs(steps["z"])], axis=1)
            q = np.stack([PY.ravel() / abs(steps["y"]), PZ.ravel() / abs(steps["z"])], axis=1)
            hull = Delaunay(pts)
            center = pts.mean(axis=0)
            inr = hull.find_simplex(center + (q - center) * 1.02) >= 0
            outr = hull.find_simplex(center + (q - center) * 0.98) < 0
            for s in ("Fe-K", "Si-K"):
                if s in skipped:
                    continue
                a = out["detector00"][s][stack].ravel()
                if p["degree"] == 1:
                    c.require(iscval(a[outr]).all(), "resample:extrapolated2", lambda: (info(), s, stack))
                    fin = ~iscval(a)
                    c.require(fin[inr].all(), "resample:hole", lambda: (info(), s, stack))
                    ref = func(s, PY, PZ).ravel()
                    c.require(np.allclose(a[fin], ref[fin], rtol=1e-4, atol=1e-4), "resample:position2", lambda: (info(), s, stack, a, ref))
                else:
                    src = arrays["detector00"][s][stack]
                    c.require(np.isin(np.round(a, 9), np.round(src, 9)).all(), "resample:nearest2", lambda: (info(), s, a, src))
            inside += int(inr.sum())
    c.event("points_inside", inside)
    c.key(*info()[:-1], repr(p))


def interp(c, rng):
    """interpolation helpers"""
    rs = c.np
    ndim = rng.randint(1, 3)
    shape = tuple(rng.randint(4, 6) for _ in range(ndim))
    ax = tuple(np.cumsum(rs.rand(s) + 0.2) for s in shape)
    coef = rs.uniform(-2, 2, ndim)
    a0 = rng.uniform(-2, 2)
    grids = np.meshgrid(*ax, indexing="ij")
    data = a0 + sum(k * g for k, g in zip(coef, grids))
    newax = tuple(np.sort(rs.uniform(a[0], a[-1], rng.randint(1, 4))) for a in ax)
    asgrid = rng.random() < 0.6 or ndim == 1
    if not asgrid:
        m = min(map(len, newax))
        newax = tuple(a[:m] for a in newax)
        ng = newax
    else:
        ng = np.meshgrid(*newax, indexing="ij")
    ref = a0 + sum(k * g for k, g in zip(coef, ng))
    degree = rng.choice([0, 1, 1, 1])
    for name, f in (("regular", interpolate.interpolate_regular), ("irregular", interpolate.interpolate_irregular)):
        axold = ax if name == "regular" else tuple(grids)
        if name == "irregular" and ndim == 1:
            perm = rs.permutation(shape[0])
            axold = (ax[0][perm],)
            d = data[perm]
        else:
            d = data
        out = np.asarray(f(d, axold, newax, degree=degree, asgrid=asgrid))
        c.require(out.shape == ref.shape, "interp:shape", lambda: (name, ndim, degree, asgrid, out.shape, ref.shape))
        if degree == 1:
            c.require(np.allclose(out, ref, rtol=1e-6, atol=1e-6), "interp:" + name, lambda: (name, ndim, ax, newax, out, ref))
        else:
            c.require(all(np.isclose(data.ravel(), v).any() for v in out.ravel()), "interp:nearest_" + name, lambda: (out, data))
        # nodes are reproduced
        out = np.asarray(f(data, ax if name == "regular" else tuple(grids), ax, degree=degree))
        c.require(np.allclose(out, data, rtol=1e-6, atol=1e-6), "interp:nodes_" + name, lambda: (ndim, degree, out, data))
        c.event("interpolations")
    # higher orders (capped to linear in more dimensions)
    degree = rng.choice([2, 3, 4])
    smooth = np.ones(shape)
    fine = tuple(np.sort(rs.uniform(a[0], a[-1], 5)) for a in ax)
    exact = np.ones([5] * ndim)
    for i in range(ndim):
        cf = rs.uniform(-1, 1, 4 if min(degree, 3) == 3 else 3)
        b = [1] * ndim
        b[i] = -1
        smooth = smooth * np.polyval(cf, ax[i]).reshape(b)
        exact = exact * np.polyval(cf, fine[i]).reshape(b)
    scale = 1e-6 * max(1, abs(smooth).max())
    for name, f in (("regular", interpolate.interpolate_regular), ("irregular", interpolate.interpolate_irregular)):
        if name == "regular" and ndim == 2 and degree > 3:
            continue
        axold = ax if name == "regular" else tuple(grids)
        out = np.asarray(f(data, axold, newax, degree=degree, asgrid=asgrid))
        c.require(out.shape == ref.shape and np.allclose(out, ref, rtol=1e-4, atol=1e-4), "interp:linear of higher degree", lambda: (name, ndim, degree, out, ref))
        out = np.asarray(f(smooth, axold, fine, degree=degree))
        lin = np.asarray(f(smooth, axold, fine, degree=1))
        if ndim == 1 or (ndim == 2 and name == "regular"):
            c.require(np.allclose(out, exact, rtol=1e-6, atol=scale), "interp:polynomial", lambda: (name, ndim, degree, out, exact))
        elif ndim == 2:
            err = lambda v: np.sqrt(np.nanmean((v - exact) ** 2))
            c.require(err(out) <= 3 * err(lin) + scale, "interp:smoother", lambda: (name, degree, err(out), err(lin)))
            if err(lin) > 100 * scale:
                c.require(not np.allclose(out, lin, rtol=0, atol=scale, equal_nan=True), "interp:still linear", lambda: (name, degree, err(out), err(lin)))
        else:
            c.require(np.allclose(out, lin, equal_nan=True), "interp:capped", lambda: (name, degree))
    # outside: cval
    far = tuple(np.array([a[-1] + 1.0 + rng.random()]) for a in ax)
    cval = rng.choice([np.nan, -5.0])
    if ndim != 2 or True:
        o = np.asarray(interpolate.interpolate_irregular(data, tuple(grids), far, cval=cval, degree=1))
        c.require(np.array_equal(o.ravel(), [cval], equal_nan=True), "interp:outside", lambda: (ndim, o))
    if ndim != 2:
        o = np.asarray(interpolate.interpolate_regular(data, ax, far, cval=cval, degree=1))
        c.require(np.array_equal(o.ravel(), [cval], equal_nan=True), "interp:outside_regular", lambda: (ndim, o))
    c.key(ndim, shape, degree, asgrid, c.seedstr)


def lookup(c, rng):
    """step functions and extrapolation"""
    import scipy.interpolate

    n = rng.randint(2, 8)
    xs = np.cumsum(c.np.rand(n) + 0.1)
    ys = c.np.uniform(-5, 5, n)
    q = np.concatenate([c.np.uniform(xs[0] - 1, xs[-1] + 1, 10), xs])
    kind = rng.choice(["floor", "ceil", "extrap"])
    if kind == "floor":
        ref = [ys[[i for i in range(n) if xs[i] <= x][-1]] if x >= xs[0] else np.nan for x in q]
        f = interpolate.interp1d_floor(xs, ys)
    elif kind == "ceil":
        ref = [ys[[i for i in range(n) if xs[i] >= x][0]] if x <= xs[-1] else np.nan for x in q]
        f = interpolate.interp1d_ceil(xs, ys)
    else:
        f = interpolate.extrap1d(scipy.interpolate.interp1d(xs, ys))

        def one(x):
            if x < xs[0]:
                return ys[0] + (x - xs[0]) * (ys[1] - ys[0]) / (xs[1] - xs[0])
            if x > xs[-1]:
                return ys[-1] + (x - xs[-1]) * (ys[-1] - ys[-2]) / (xs[-1] - xs[-2])
            return np.interp(x, xs, ys)

        ref = [one(x) for x in q]
    out = np.asarray(f(q))
    c.require(out.shape == q.shape and np.allclose(out.astype(float), ref, equal_nan=True), "lookup:" + kind, lambda: (xs, ys, q, out, ref))
    if kind != "extrap":
        o = f(float(q[0]))
        c.require(np.allclose(float(o), ref[0], equal_nan=True), "lookup:scalar_" + kind, lambda: (q[0], o))
    c.event("lookups", len(q))
    c.key(kind, c.seedstr)


GROUPS = [
    Group("resample", resample, 48, 800, timeout=120),
    Group("interp", interp, 200, 6000),
    Group("lookup", lookup, 100, 2000),
]
MIN_EVENTS = {"points_inside": 500, "interpolations": 100, "lookups": 500}
