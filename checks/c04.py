"""NXdata signals, axes and default plot stay consistent."""
import os
import h5py
import numpy as np
from lib.vp import Group
from lib import h5snap
from spectrocrunch.io import fs, nxfs
from spectrocrunch.utils import units

ID = "C04"
LEVEL = "exploration"
RULE = (
    "random histories of add/remove/sort/default signal, set axes, mark default on NXdata groups of "
    "several entries and processes, with refused operations mixed in (wrong shape, wrong class, "
    "conflicting axis), axes shared between groups given as values, quantities, names or data sets; after each operation the file read back with h5py and the API must show the "
    "modelled signals, default signal, axes and default plot; non-trivial when at least two signals "
    "existed"
)

UNITS = ["um", "mm", "keV", "s", None]


def raw_signals(filename, path):
    with h5py.File(filename, "r", locking=False) as f:
        g = f[path]
        dec = lambda x: x.decode() if isinstance(x, bytes) else str(x)
        s = g.attrs.get("signal", None)
        aux = [dec(x) for x in g.attrs.get("auxiliary_signals", [])]
        axes = [dec(x) for x in g.attrs.get("axes", [])]
        datasets = {k for k in g if isinstance(g.get(k), h5py.Dataset)}
        return (None if s is None else dec(s)), aux, axes, datasets


def follow_default(filename):
    """what a NeXus reader does: follow the default attributes from the root to an NXdata group"""
    with h5py.File(filename, "r", locking=False) as f:
        g = f["/"]
        for _ in range(20):
            cls = g.attrs.get("NX_class", "")
            cls = cls.decode() if isinstance(cls, bytes) else cls
            if cls == "NXdata":
                return g.name
            d = g.attrs.get("default", None)
            if d is None:
                return None
            g = g[d.decode() if isinstance(d, bytes) else d]
    return None


def history(c, rng):
    filename = os.path.join(c.dir, "d.h5")
    root = nxfs.Path("/", h5file=filename).nxroot()
    e1 = root.new_nxentry()
    p1 = e1.nxprocess("p.1", parameters={"a": 1})
    groups = []
    parents = [p1.results]
    if rng.random() < 0.5:
        e2 = root.new_nxentry()
        parents.append(e2)
    if rng.random() < 0.4:
        parents.append(rng.choice([
            lambda: e1.application("xrf", definition="NXxrf"),
            lambda: e1.nxsubentry("sub"),
            lambda: e1.nxcollection("coll"),
            lambda: e1.nxsubentry("sub").nxcollection("coll"),
        ])())
    ngroups = rng.randint(1, 3)
    for i in range(ngroups):
        parent = rng.choice(parents)
        nd = parent.nxdata("group{}".format(i))
        c.require(nd.nxclass == "NXdata", "class", lambda: nd.nxclass)
        ndim = rng.choice([1, 2, 2, 3])
        groups.append({
            "nd": nd, "signals": {}, "order": [], "axes": None,
            "shape": tuple(rng.randint(1, 4) for _ in range(ndim)), "hist": [],
        })
    default = None
    src = root["src"].mkfile(data=np.arange(4.0))
    maxsig = 0
    axmodel, axsrc = {}, 0
    log = []
    for _ in range(rng.randint(4, 16)):
        g = rng.choice(groups)
        nd, shape = g["nd"], g["shape"]
        op = rng.choice(["add", "add", "add", "default", "remove", "sort", "axes", "axes", "axes", "axes", "mark", "marksig", "bad", "badaxes", "reject"])
        log.append((nd.name, op))
        if op == "add":
            name = rng.choice([n for n in ["Fe-K", "Si K", "a", "b", "x1", "z"] if n not in g["signals"]] or [None])
            if name is None:
                continue
            data = c.np.randint(0, 100, shape).astype(rng.choice(["f4", "f8", "i4"]))
            how = rng.randint(0, 2)
            if how == 0:
                ret = nd.add_signal(name=name, data=data)
            elif how == 1:
                ret = nd.add_signal(name, shape=shape, dtype=data.dtype, chunks=True)
                with ret.open() as dset:
                    dset[()] = data
            else:
                path = nd.parent["lnk_" + nd.name + name].mkfile(data=data, mode="w")
                ret = nd.add_signal(name=name, path=path)
            c.require(ret == nd[name], "add:result", lambda: ret)
            g["signals"][name] = data
            g["order"] = [name] + g["order"]
        elif op == "default":
            name = rng.choice(list(g["signals"]) + ["nope"])
            ret = nd.default_signal(name)
            c.require(bool(ret) == (name in g["signals"]), "default:result", lambda: (name, ret))
            if name in g["signals"]:
                g["order"].remove(name)
                g["order"].insert(0, name)
        elif op == "remove":
            if not g["signals"]:
                continue
            name = rng.choice(list(g["signals"]))
            was = g["order"][0] == name
            nd.remove_signal(name)
            del g["signals"][name]
            g["order"].remove(name)
            if was and g["order"]:
                # another signal takes over (which one is not specified)
                new, _, _, _ = raw_signals(filename, nd.path)
                c.require(new in g["signals"], "remove:default", lambda: (name, new, g["order"]))
                g["order"].remove(new)
                g["order"].insert(0, new)
        elif op == "sort":
            if not g["signals"]:
                continue
            nd.sort_signals()
            g["order"] = sorted(g["order"])
            sig, aux, _, _ = raw_signals(filename, nd.path)
            c.require([sig] + aux == g["order"], "sort:order", lambda: (sig, aux, g["order"]))
        elif op == "axes":
            where = nd.positioners()
            known = axmodel.setdefault(where.path, {})
            axes, vals, new, fails = [], [], {}, False
            shared = rng.random() < 0.6
            pool = ["s0", "s1", "s2", "s3", "t0", "t1"]
            rng.shuffle(pool)
            if rng.random() < 0.6:  # prefer what exists
                pool.sort(key=lambda x: x not in known)
            for i, n in enumerate(shape):
                u = rng.choice(UNITS)
                v = np.cumsum(c.np.rand(n) + 0.1)
                name = pool[i] if shared else "{}_ax{}".format(nd.name, i)
                if name in known:
                    ov, ou = known[name]
                    k = rng.choice(["same", "same", "same", "none", "str", "path", "other"])
                    if k != "other":
                        v, u = ov, ou
                    elif len(ov) == n and rng.random() < 0.5:
                        v = ov.copy()
                        v[rng.randrange(n)] += 1
                    if k == "other":
                        fails = True
                elif rng.random() < 0.06:
                    k, fails = "none", True
                else:
                    k = rng.choice(["new", "new", "new", "path"])
                q = units.Quantity(v, u) if u else v
                if k == "none":
                    axes.append((name, None, None))
                elif k == "str":
                    axes.append(name)
                elif k == "path":
                    axsrc += 1
                    axes.append((name, root["axsrc%d" % axsrc].mkfile(data=v), None))
                    u = u if name in known else None
                elif rng.random() < 0.5 or not u:
                    axes.append((name, q, None))
                else:
                    axes.append((name, v, {"units": u, "title": "t" + name}))
                vals.append((name, v, u))
                if name not in known:
                    new[name] = (v, u)
            if g["signals"] and tuple(len(v) for _, v, _ in vals) != shape:
                fails = True
            before = h5snap.snapshot(filename)
            try:
                nd.set_axes(*axes)
            except (nxfs.NexusFormatException, ValueError) as e:
                c.require(fails, "axes:refused", lambda: (axes, known, str(e)))
                after = h5snap.snapshot(filename)
                c.require(before == after, "axes:refused_modified", lambda: h5snap.diff(before, after))
                c.event("axes_refused")
                continue
            c.require(not fails, "axes:accepted", lambda: (axes, known))
            known.update(new)
            g["axes"] = vals
            c.event("axes_reused", len(vals) - len(new))
            g["ashape"] = tuple(len(v) for _, v, _ in vals)
            if not g["signals"]:
                g["shape"] = g["ashape"]
        elif op in ("mark", "marksig"):
            if op == "marksig":
                if not g["signals"]:
                    continue
                name = rng.choice(list(g["signals"]))
                nd[name].mark_default()
                g["order"].remove(name)
                g["order"].insert(0, name)
            else:
                nd.mark_default()
            default = nd
            d = root.default
            c.require(d == nd, "mark_default", lambda: (d, nd))
        else:
            before = h5snap.snapshot(filename)
            try:
                if op == "bad":
                    if not g["signals"] and g["axes"] is None:
                        continue
                    bad = shape + (2,) if rng.random() < 0.5 else tuple(n + 1 for n in shape)
                    exc = nxfs.NexusFormatException
                    nd.add_signal(name="bad", data=np.zeros(bad))
                elif op == "badaxes":
                    if not g["signals"] or g["axes"] is not None:
                        continue
                    nd.positioners()
                    before = h5snap.snapshot(filename)
                    exc = nxfs.NexusFormatException
                    nd.set_axes(*[("bad{}".format(i), np.arange(n + 1), None) for i, n in enumerate(shape)])
                else:
                    exc = fs.AlreadyExists
                    k = rng.randint(0, 2)
                    if k == 0:
                        nd.parent.nxcollection(nd.name)
                    elif k == 1:
                        nd.parent.nxnote(nd.name)
                    else:
                        exc = nxfs.NexusFormatException
                        root.nxdata("x")
            except exc:
                c.event("refused")
            else:
                c.require(False, "refused:" + op, lambda: (op, nd, g["shape"]))
            after = h5snap.snapshot(filename)
            c.require(before == after, "refused_modified:" + op, lambda: h5snap.diff(before, after))
        c.event("operations")
        # monitor: all groups
        for h in groups:
            sig, aux, axes, datasets = raw_signals(filename, h["nd"].path)
            exp = h["order"]
            info = lambda: (log, h["nd"].path, sig, aux, exp)
            c.require(sig == (exp[0] if exp else None), "signal:" + op, info)
            c.require(sorted(aux) == sorted(exp[1:]), "auxiliary:" + op, info)
            n = h["nd"]
            s = n.signal
            c.require((s.name if s is not None else None) == sig, "api:signal", info)
            if exp:
                c.require(sorted(x.name for x in n.signals) == sorted(exp), "api:signals", info)
                c.require(n.shape == h["shape"] and n.ndim == len(h["shape"]), "api:shape", info)
                c.require(set(exp) <= datasets, "datasets", info)
                k = rng.choice(exp)
                c.require(np.array_equal(n[k].read(), h["signals"][k]), "data", info)
                want = {1: len(h["shape"]) - 1}.get(len(h["shape"]), 0)
                attr = n.signal.get_stat("interpretation", None)
                c.require(n.stackdim() == want, "stackdim", lambda: (n.stackdim(), want, attr))
            if h["axes"] is not None:
                c.require(axes == [a[0] for a in h["axes"]], "axes", info)
                got = n.axes
                c.require(n.axes_shape == h["ashape"], "axes_shape", info)
                for (name, v, attrs), (ename, ev, eu) in zip(got, h["axes"]):
                    c.require(name == ename and np.array_equal(v.magnitude, ev), "axes_values", lambda: (got, h["axes"]))
                    eunits = units.Quantity(1, eu or "dimensionless")
                    c.require(units.Quantity(1, v.units) == eunits, "axes_units", lambda: (got, h["axes"]))
            else:
                c.require(axes == [], "axes_none", info)
            maxsig = max(maxsig, len(exp))
        if default is not None:
            d = nxfs.Path("/", h5file=filename).default
            c.require(d == default, "default_plot", lambda: (d, default, log))
            followed = follow_default(filename)
            c.require(followed == default.path, "default_plot:followed", lambda: (followed, default, log))
    if maxsig < 2:
        c.trivial()
    c.key(repr(log), repr([(g["shape"], g["order"]) for g in groups]))
    c.sample(log)


def positioners(c, rng):
    """an axis keeps its values: re-adding equal values is accepted, others are refused"""
    filename = os.path.join(c.dir, "d.h5")
    root = nxfs.Path("/", h5file=filename).nxroot()
    e = root.new_nxentry()
    where = rng.choice([e, e.nxprocess("p.1", parameters={})])
    pos = where.positioners()
    c.require(pos == where.positioners(), "positioners:same")
    state = {}
    for _ in range(rng.randint(3, 10)):
        name = rng.choice(["x", "y", "z"])
        u = rng.choice(UNITS)
        v = c.np.randint(1, 4, rng.randint(1, 3)).astype(float)
        q = units.Quantity(v, u) if u and rng.random() < 0.7 else v
        u = u if q is not v else None
        try:
            pos.add_axis(name, q)
            ok = True
        except ValueError:
            ok = False
        if name in state:
            same = np.array_equal(state[name][0], v) and (u is None or u == state[name][1])
            c.require(ok == same, "positioners:conflict", lambda: (name, state[name], q, ok))
        else:
            c.require(ok, "positioners:refused", lambda: (name, q))
            state[name] = (v, u)
        for k, (v, u) in state.items():
            got = pos.get_axis(k)
            c.require(np.array_equal(got.magnitude, v), "positioners:values", lambda: (k, got, v))
            c.require(units.Quantity(1, got.units) == units.Quantity(1, u or "dimensionless"), "positioners:units", lambda: (k, got, u))
            c.require(pos.axis_size(k) == v.size, "positioners:size")
        c.event("axes_added")
    c.key(repr(state), where.name)


def entries(c, rng):
    """entries, notes and datasets with units read back"""
    filename = os.path.join(c.dir, "d.h5")
    root = nxfs.Path("/", h5file=filename).nxroot()
    seen = []
    for _ in range(rng.randint(1, 5)):
        if rng.random() < 0.3:
            name = rng.choice(["scan0007", "sample.3", "entry0001", "x"])
            e = root.nxentry(name=name)
            c.require(e.name == name, "entry:name", lambda: e)
            if name not in seen:
                seen.append(name)
        else:
            e = root.new_nxentry()
            c.require(e.name not in seen, "entry:collision", lambda: (e, seen))
            seen.append(e.name)
        c.require(e.nxclass == "NXentry", "entry:class")
        deep = e["deeper"].mkdir()
        c.require(deep.nxentry() == e and deep.nxentry(name=e.name) == e, "entry:up")
        other = deep.nxentry(name="other7")
        c.require(other == root["other7"] and other.nxclass == "NXentry", "entry:other", lambda: other)
        if "other7" not in seen:
            seen.append("other7")
        c.event("entries")
    c.require({x.name for x in root.iter_nxentry()} == set(seen), "entry:iter", lambda: seen)
    apps = []
    for i, n in enumerate(seen):
        a = root.nxentry(name=n).application("app%d" % (i % 2), definition=rng.choice(["NXxrf", "NXfluo", None]))
        apps.append((a, n, a["definition"].read()))
        if rng.random() < 0.3:
            a = root.nxentry(name=n).nxsubentry("plainsub")  # not an application
    c.require(all(d in ("NXxrf", "NXfluo", a.name) for a, _, d in apps), "application:definition", lambda: apps)
    for n in seen[:2] + [None, "missing"]:
        for d in ("NXxrf", "NXfluo", "app0", None):
            hits = [a for a, n2, d2 in apps if n in (None, n2) and d in (None, d2)]
            got = rng.choice([root, e, e["deeper"]]).find_application(entryname=n, definition=d)
            c.require(got in hits if hits else got is None, "application:find", lambda: (n, d, got, apps))
            c.event("applications_searched")
    mine = {str(a) for a, n, _ in apps if n == e.name}
    c.require({str(x) for x in e["deeper"].iter_application()} == mine, "application:iter", lambda: mine)
    c.require({str(x) for x in e.iter_application(searchallentries=True)} == {str(a) for a, _, _ in apps}, "application:iterall")
    note = e.nxnote("note")
    data = rng.choice(["text né", {"a": [1, 2.5, None], "b": {"c": "x"}}, [1, 2, 3]])
    typ = rng.choice(["json", "jsonpickle"])
    note.write(data, typ=typ)
    got = e.nxnote("note").read()
    c.require(got == data, "note", lambda: (got, data, typ))
    u = rng.choice(["um", "keV", "1/s"])
    v = c.np.rand(3)
    e["q"].mkfile(data=units.Quantity(v, u))
    e["q2"].mkfile(data=units.Quantity(v, "mm"), units="um")
    c.require(np.array_equal(e["q"].read(), v) and units.Quantity(1, e["q"].get_stat("units")) == units.Quantity(1, u), "quantity", lambda: e["q"].stats())
    c.require(np.allclose(e["q2"].read(), v * 1000) and e["q2"].get_stat("units") in ("um", "µm"), "quantity_convert", lambda: e["q2"].stats())
    mono = e.nxmonochromator()
    mono.energy = units.Quantity(7.1, "keV")
    c.require(abs(e.nxmonochromator().energy.to("eV").magnitude - 7100) < 1e-6, "energy", lambda: mono.energy)
    c.key(repr(seen), typ, u)


GROUPS = [
    Group("history", history, 130, 2500, timeout=120),
    Group("positioners", positioners, 60, 1200),
    Group("entries", entries, 60, 1000),
]
