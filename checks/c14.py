"""Grids in files behave like the numpy array they represent."""
import os
import numpy as np
from lib.vp import Group, Discard
from lib import h5snap
from lib.nx import make_source
from checks.c15 import rand_index
from spectrocrunch.io import nxfs
from spectrocrunch.process import h5regulargrid, regulargrid, axis
from spectrocrunch.utils import units

ID = "C14"
LEVEL = "exploration"
RULE = (
    "NXprocess/NXdata grids with 1-3 groups and 1-4 signals of 1D-3D, every stack dimension, and in-memory grids: "
    "histories of indexing, values, item assignment, in-place arithmetic, lookup and interpolation compared with the "
    "equivalent numpy array; after writes the file is read back with h5py; non-trivial: index is not a full slice"
)


def index_for(rng, shape):
    return rand_index(rng, shape)


def npindex(rng, shape, h5=False):
    """random numpy index (h5py: increasing lists, one list, positive steps)"""
    if not h5:
        return rand_index(rng, shape)
    idx = []
    lists = 0
    # numpy and h5py order the dimensions differently when integers and lists are combined
    kinds = rng.choice([["int", "slice", "full"], ["slice", "list", "full"]])
    for n in shape:
        k = rng.choice(kinds)
        if k == "int":
            idx.append(rng.randrange(n))
        elif k == "slice":
            a = rng.randrange(n)
            idx.append(slice(a, rng.randint(a + 1, n), rng.choice([None, 1, 2])))
        elif k == "list" and not lists:
            lists += 1
            idx.append(sorted(rng.sample(range(n), rng.randint(1, n))))
        else:
            idx.append(slice(None))
    return tuple(idx)


def build(c, rng):
    ndim = rng.randint(1, 3)
    shape = tuple(rng.randint(2, 4) for _ in range(ndim))
    ng = rng.randint(1, 3)
    groups = {}
    for i in range(ng):
        groups["detector{:02d}".format(i) if i else rng.choice(["counters", "detector00"])] = rng.sample(["Fe-K", "Si-K", "S-K", "Al-K"], rng.randint(1, 3))
    filename = os.path.join(c.dir, "t.h5")
    psd = rng.choice([None, 0, ndim])
    params = {"name": "raw"}
    if psd is not None:
        params["stackdim"] = psd
    proc, arrays, axes = make_source(filename, c.np, shape=shape, groups=groups, dtype=np.float32, parameters=params)
    return filename, proc, arrays, axes, shape, psd


def proc_grid(c, rng):
    filename, proc, arrays, axes, shape, psd = build(c, rng)
    sd = rng.choice([None] + list(range(len(shape) + 1)))
    if sd is None and psd is None:
        # default stack dimension of the data
        pass
    try:
        grid = h5regulargrid.NXRegularGrid(proc, stackdim=sd)
    except Exception:
        raise
    eff = grid.stackdim
    if sd is not None:
        c.require(eff == sd, "proc:stackdim", lambda: (sd, eff))
    elif psd is not None:
        c.require(eff == psd, "proc:stackdim_config", lambda: (psd, eff))
    keys = [(s.parent.name, s.name) for s in grid.signals]
    c.require(sorted(keys) == sorted((g, s) for g, v in arrays.items() for s in v), "proc:signals", lambda: (keys, arrays.keys()))
    data = np.stack([arrays[g][s] for g, s in keys], axis=eff)
    common(c, rng, grid, data, shape, "proc", [s.path for s in grid.signals])
    # signals and axes
    ax = grid.axes[eff]
    c.require(len(ax) == len(keys) and [(s.parent.name, s.name) for s in ax.values] == keys, "proc:stack_axis", lambda: keys)
    c.require(grid.signal_names == [s for g, s in keys], "proc:signal_names", lambda: grid.signal_names)
    others = [a for i, a in enumerate(grid.axes) if i != eff]
    for a, (name, values, attrs) in zip(others, axes):
        c.require(a.name == name and np.array_equal(a.magnitude, values), "proc:axes", lambda: (a, name, values))
    history(c, rng, grid, data, filename, keys, eff, proc)
    c.key(shape, sd, psd, repr(keys))


def common(c, rng, grid, data, shape, sig, what):
    c.require(grid.shape == data.shape and grid.ndim == data.ndim and grid.size == data.size and len(grid) == data.shape[0], sig + ":shape",
              lambda: (grid.shape, data.shape))
    c.require(grid.dtype == data.dtype, sig + ":dtype", lambda: (grid.dtype, data.dtype))
    v = np.asarray(grid.values)
    c.require(v.shape == data.shape and np.array_equal(v, data), sig + ":values", lambda: (what, grid.stackdim, v.shape, data.shape))
    for _ in range(6):
        idx = npindex(rng, data.shape, h5=sig in ("nxdata", "proc"))
        ref = data[idx]
        if isinstance(idx, tuple) and any(isinstance(i, (list, range)) and len(i) == 0 for i in idx):
            continue
        got = np.asarray(grid[idx])
        c.require(got.shape == ref.shape and np.array_equal(got, ref), sig + ":getitem", lambda: (data.shape, grid.stackdim, idx, got.shape, ref.shape))
        c.event("reads")
    # slices
    for d in range(-data.ndim, data.ndim):
        shp, gen = grid.sliceinfo(d)
        i = rng.randrange(data.shape[d])
        ref = np.take(data, i, axis=d)
        got = np.asarray(grid[gen(i)])
        c.require(tuple(shp) == ref.shape == got.shape and np.array_equal(got, ref), sig + ":slice", lambda: (data.shape, d, i, shp))
    for d in (data.ndim, -data.ndim - 1):
        try:
            grid.sliceinfo(d)
        except ValueError:
            pass
        else:
            c.require(False, sig + ":slice_out_of_range", d)
    c.require(sorted(grid.stack_dims + grid.other_dims) == list(range(grid.ndim)) if grid.ndim > 1 and len(set(grid.stack_dims)) == len(grid.stack_dims) and max(grid.stack_dims) < grid.ndim else True,
              sig + ":dims", lambda: (grid.stack_dims, grid.other_dims))


def readback(filename, proc, keys, eff):
    import h5py

    with h5py.File(filename, "r", locking=False) as f:
        return np.stack([f[proc.path]["results"][g][s][()] for g, s in keys], axis=eff)


def history(c, rng, grid, data, filename, keys, eff, proc):
    """writes go to the right place in the file"""
    ref = data.copy()
    log = []
    for _ in range(rng.randint(1, 4)):
        op = rng.choice(["set", "set", "iadd", "isub", "imul", "idiv"])
        if op == "set":
            idx = npindex(rng, ref.shape, h5=True)
            shp = ref[idx].shape
            val = rng.choice([float(rng.randint(-9, 9)), None])
            if val is None or any(isinstance(i, list) for i in idx):
                # h5py does not broadcast over list selections
                val = c.np.randint(-9, 9, shp).astype(np.float32)
            log.append((op, idx, np.shape(val)))
            grid[idx] = val
            ref[idx] = val
        else:
            k = float(rng.choice([2, 4, 0.5]))
            log.append((op, k))
            if op == "iadd":
                grid += k
                ref += k
            elif op == "isub":
                grid -= k
                ref -= k
            elif op == "imul":
                grid *= k
                ref *= k
            else:
                grid /= k
                ref /= k
            c.require(isinstance(grid, regulargrid.RegularGrid), "write:inplace_operator", lambda: (log, grid))
        got = readback(filename, proc, keys, eff)
        c.require(np.allclose(got, ref, rtol=1e-6), "write:file", lambda: (ref.shape, eff, log, got, ref))
        c.require(np.allclose(np.asarray(grid.values), ref, rtol=1e-6), "write:values", lambda: (ref.shape, eff, log))
        c.event("writes")


def nxdata_grid(c, rng):
    """single signal"""
    filename, proc, arrays, axes, shape, psd = build(c, rng)
    g = rng.choice(sorted(arrays))
    s = rng.choice(sorted(arrays[g]))
    signal = proc.results[g][s]
    grid = h5regulargrid.NXSignalRegularGrid(signal, stackdim=rng.choice([None] + list(range(len(shape)))))
    data = arrays[g][s]
    common(c, rng, grid, data, shape, "nxdata", s)
    for a, (name, values, attrs) in zip(grid.axes, axes):
        c.require(a.name == name and np.array_equal(a.magnitude, values), "nxdata:axes", lambda: (a, name, values))
    idx = npindex(rng, data.shape, h5=True)
    before = readback(filename, proc, [(g, s)], 0)[0].copy()
    val = c.np.randint(0, 100, before[idx].shape).astype(np.float32)
    grid[idx] = val
    before[idx] = val
    got = readback(filename, proc, [(g, s)], 0)[0]
    c.require(np.array_equal(got, before), "nxdata:setitem", lambda: (shape, idx))
    others = [(a, b) for a in arrays for b in arrays[a] if (a, b) != (g, s)]
    for a, b in others:
        c.require(np.array_equal(readback(filename, proc, [(a, b)], 0)[0], arrays[a][b]), "nxdata:other_signal_changed", lambda: (a, b))
    ords = [float(v[rng.randrange(len(v))]) for _, v, _ in axes]
    loc = grid.locate(*ords)
    c.require(all(axes[i][1][loc[i]] == o for i, o in enumerate(ords)), "nxdata:locate", lambda: (ords, loc))
    c.event("writes")
    c.key(shape, g, s, repr(idx))


def memory_grid(c, rng):
    ndim = rng.randint(1, 3)
    shape = tuple(rng.randint(4, 6) for _ in range(ndim))
    sd = rng.randrange(ndim)
    names = ["Fe-K", "Si-K", "S-K", "Al-K", "Ce-L", "Ar-K"][: shape[sd]]
    axes = []
    pos = []
    rev = []
    for i, n in enumerate(shape):
        if i == sd:
            axes.append(axis.factory(names, type="ordinal"))
            pos.append(np.arange(n) * 1.0)
        else:
            v = np.cumsum(c.np.rand(n) + 0.3) if rng.random() < 0.5 else np.arange(n) * 2.0 + 1
            if rng.random() < 0.3:
                v = v[::-1]
            axes.append(axis.factory(units.Quantity(v, units="um")))
            pos.append(v)
    # multilinear data
    grids = np.meshgrid(*pos, indexing="ij")
    coef = c.np.uniform(-3, 3, ndim)
    a0 = rng.uniform(-5, 5)
    data = a0 + sum(k * g for k, g in zip(coef, grids))
    grid = regulargrid.RegularGrid(axes, data.copy(), stackdim=sd)
    common(c, rng, grid, data, shape, "memory", None)
    q, qpos = [], []
    asgrid = rng.random() < 0.7
    m = rng.randint(1, 3)
    for i, n in enumerate(shape):
        if i == sd:
            js = [rng.randrange(n) for _ in range(m)]
            if asgrid:
                js = sorted(set(js))
            q.append([names[j] for j in js])
            qpos.append(np.array(js, dtype=float))
        elif asgrid and rng.random() < 0.25:
            q.append(None)
            qpos.append(pos[i])
        else:
            lo, hi = pos[i].min(), pos[i].max()
            x = np.array([rng.uniform(lo, hi) for _ in range(m)])
            if asgrid:
                x = np.sort(x)
                if pos[i][0] > pos[i][-1]:
                    x = x[::-1]
            q.append(units.Quantity(x, units="um").to("mm") if rng.random() < 0.3 else x)
            qpos.append(x)
    got = np.asarray(grid.interpolate(*q, degree=1, asgrid=asgrid))
    g = np.meshgrid(*qpos, indexing="ij") if asgrid else qpos
    ref = a0 + sum(k * x for k, x in zip(coef, g))
    c.require(got.shape == ref.shape and np.allclose(got, ref, rtol=1e-6, atol=1e-6), "memory:interpolate", lambda: (shape, sd, q, asgrid, got, ref))
    c.event("interpolated", ref.size)
    ref = data.copy()
    for _ in range(3):
        op = rng.choice(["iadd", "isub", "imul", "idiv", "set"])
        k = float(rng.choice([2, 4]))
        if op == "iadd":
            grid += k
            ref += k
        elif op == "isub":
            grid -= k
            ref -= k
        elif op == "imul":
            grid *= k
            ref *= k
        elif op == "idiv":
            grid /= k
            ref /= k
        else:
            idx = npindex(rng, ref.shape)
            grid[idx] = k
            ref[idx] = k
        c.require(isinstance(grid, regulargrid.RegularGrid), "memory:inplace_operator", lambda: (op, grid))
        c.require(np.allclose(grid.values, ref), "memory:" + op, lambda: (op, k))
        c.event("writes")
    c.key(shape, sd, repr(q), asgrid)


GROUPS = [
    Group("proc", proc_grid, 48, 800, timeout=120),
    Group("nxdata", nxdata_grid, 32, 500, timeout=120),
    Group("memory", memory_grid, 300, 6000),
]
MIN_EVENTS = {"reads": 400, "writes": 200, "interpolated": 300}
