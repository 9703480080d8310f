"""A process in a NeXus file is identified by its parameters and dependencies."""
import os
import copy
import json
import h5py
import numpy as np
from lib.vp import Group
from lib import h5snap
from spectrocrunch.io import fs, nxfs, target

ID = "C03"
LEVEL = "exploration"
RULE = (
    "random histories of process creations and look-ups in one NeXus file: few names, parameter "
    "trees drawn from a small pool (so that they repeat) and re-ordered, dependency lists on earlier "
    "processes or datasets, several entries; every returned path is compared with a table keyed by "
    "(parameters, dependencies, name family); non-trivial when a look-up had to find an existing process"
)


def value(rng, depth=0):
    k = rng.randint(0, 8 if depth < 2 else 5)
    if k == 0:
        return rng.choice([2, 3, 17, -5])
    if k == 1:
        return rng.choice([0.5, 2.25, 1e-3])
    if k in (2, 3):
        return rng.choice(["x", "y", "some text", "é"])
    if k == 4:
        return None
    if k == 5:
        return rng.choice([[2, 3], [], ["a", "b"], [2.5, None]])
    if k == 6:
        return [value(rng, depth + 1) for _ in range(rng.randint(1, 3))]
    return {rng.choice("abcdef"): value(rng, depth + 1) for _ in range(rng.randint(1, 3))}


def params(rng):
    return {rng.choice(["method", "name", "alpha", "n", "roi", "é"]): value(rng) for _ in range(rng.randint(1, 4))}


def reorder(x, rng):
    if isinstance(x, dict):
        keys = list(x)
        rng.shuffle(keys)
        return {k: reorder(x[k], rng) for k in keys}
    if isinstance(x, list):
        return [reorder(y, rng) for y in x]
    return x


def canon(x):
    return json.dumps(x, sort_keys=True)


def family(name):
    """name.N and name are one family; otherwise the last number is the counter"""
    import re

    ms = list(re.finditer("[0-9]+", name))
    if not ms:
        return (name, "")
    m = ms[-1]
    a, b = name[: m.start()], name[m.end():]
    if not b and a.endswith("."):
        return (a[:-1], "")
    return (a, b)


def history(c, rng):
    filename = os.path.join(c.dir, "p.h5")
    root = nxfs.Path("/", h5file=filename).nxroot()
    entries = [root.new_nxentry() for _ in range(rng.randint(1, 2))]
    names = [e.name for e in entries]
    c.require(len(set(names)) == len(names), "entry:name", lambda: names)
    data = root["data"].mkfile(data=np.arange(3))
    pool = [params(rng) for _ in range(3)]
    # near misses
    q = copy.deepcopy(pool[0])
    q["extra"] = None
    pool.append(q)
    fams = rng.choice([["align.1", "crop.1"], ["p0001", "p0001_x"], ["fit.1"]])
    table = {}  # path -> (entry, canon, deps, family)
    order = []
    found = 0
    deplists = []
    for step in range(rng.randint(5, 10)):
        e = rng.choice(entries)
        p = rng.choice(pool)
        deps = []
        if deplists and rng.random() < 0.6:
            deps = rng.choice(deplists)
        elif order and rng.random() < 0.5:
            deps = rng.sample(order, min(len(order), rng.randint(1, 2)))
            if rng.random() < 0.15:
                deps = deps + [data]
            deplists.append(deps)
        name = rng.choice(fams)
        key = (canon(p), tuple(str(d) for d in deps), family(name))
        alle = rng.random() < 0.5
        hits = [x for x, k in table.items() if k[1:] == key and (alle or k[0] == e.name)]
        before = h5snap.snapshot(filename)
        look = e.find_nxprocess(name=name, parameters=reorder(p, rng), dependencies=deps, searchallentries=alle)
        c.require((str(look) if look is not None else None) in (hits or [None]), "find", lambda: (look, hits, key))
        c.require(h5snap.snapshot(filename) == before, "find:modified", lambda: h5snap.diff(before, h5snap.snapshot(filename)))
        anyname = e.find_nxprocess(parameters=p, dependencies=deps, searchallentries=alle)
        hits2 = [x for x, k in table.items() if k[1:3] == key[:2] and (alle or k[0] == e.name)]
        c.require((str(anyname) if anyname is not None else None) in (hits2 or [None]), "find:noname", lambda: (anyname, hits2))
        c.event("lookups", 2)
        if rng.random() < 0.8:
            proc = e.nxprocess(name, parameters=reorder(p, rng), dependencies=deps, searchallentries=alle)
            if hits:
                c.require(str(proc) in hits, "create:duplicate", lambda: (proc, hits, key))
                c.require(h5snap.snapshot(filename) == before, "create:existing_modified")
                found += 1
                c.event("reused")
            else:
                c.require(str(proc) not in table, "create:wrong_identity", lambda: (proc, key, table.get(str(proc))))
                c.require(proc.parent == e and proc.exists, "create:location", lambda: proc)
                c.require(family(proc.name) == family(name), "create:name", lambda: (proc, name))
                after = h5snap.snapshot(filename)
                lost = {k: v for k, v in before.items() if after.get(k) != v and not k == "."}
                c.require(not lost, "create:others_changed", lambda: h5snap.diff(before, after))
                table[str(proc)] = (e.name,) + key
                order.append(proc)
                c.event("created")
            c.require(proc.config.read() == p, "config", lambda: (proc.config.read(), p))
            c.require(proc.valid_checksum(), "valid_checksum", lambda: proc)
            c.require(proc.checksum == target.calc_checksum(deps, p), "checksum", lambda: proc)
            rdeps = proc.dependencies
            c.require([str(d.linkdest(follow=True)) for d in rdeps] == [str(d) for d in deps], "dependencies", lambda: (rdeps, deps))
            seq = 1 + max([d.sequence_index for d in deps if hasattr(d, "sequence_index")] or [0])
            c.require(int(proc.sequence_index) == seq, "sequence_index", lambda: (proc.sequence_index, seq))
    # re-opened file, other path objects
    root2 = nxfs.Path(filename)
    seen = set(str(x) for x in root2["/"].iter_nxprocess(searchallentries=True))
    c.require(seen == set(table), "iterate", lambda: (seen, set(table)))
    if order:
        # tampering shows
        victim = rng.choice(order)
        leafs = [x for x in order if all(str(x) not in k[2] for k in table.values())] or [victim]
        victim = rng.choice(leafs)
        newp = dict(victim.config.read(), tampered=rng.randint(0, 99))
        with h5py.File(filename, "a") as f:
            d = f[victim.path + "/configuration/data"]
            from spectrocrunch.patch import jsonpickle
            attrs = dict(f[victim.path + "/configuration"].attrs)
            del f[victim.path + "/configuration/data"]
            f[victim.path + "/configuration/data"] = jsonpickle.dumps(newp)
        v = nxfs.factory(victim.location)
        c.require(not v.valid_checksum(), "tampering_unnoticed", lambda: v)
        c.event("tampered")
    if not found:
        c.trivial()
    c.key(repr(table))
    c.sample({str(k).rsplit("::")[-1]: v for k, v in table.items()})


def names(c, rng):
    """increments never collide and keep the family"""
    base = rng.choice(["name", "a.b", "scan", "x(1)", "p+", "n*"])
    name = rng.choice([base, base + ".1", base + "0001", "{}{:04d}_{:02d}".format(base, rng.randint(0, 9999), rng.randint(0, 99)), base + "9", "e099x"])
    n = target.Name(name)
    seen = set()
    first = str(n)
    for _ in range(rng.randint(2, 15)):
        s = str(n)
        c.require(s not in seen, "name:repeat", lambda: (name, s))
        seen.add(s)
        c.require(bool(target.match(name)(s)) and bool(target.match(s)(first)), "name:match", lambda: (name, s))
        c.require(not target.match(name)(s + "x") and not target.match(name)("x" + s), "name:match_loose", lambda: (name, s))
        step = rng.randint(1, 3)
        nxt = str(n + step)
        c.require(str(n) == s, "name:add_changes", lambda: (name, s))
        c.require(target.increment(s, step) == nxt, "name:increment", lambda: (name, s, nxt, target.increment(s, step)))
        if rng.random() < 0.2:
            n.lock()
            n += 1
            c.require(str(n) == s, "name:locked", lambda: s)
            c.require(bool(n.matchfunc(s)), "name:matchfunc", lambda: s)
            n.unlock()
        n += step
        c.require(str(n) == nxt, "name:iadd", lambda: (str(n), nxt))
    c.require(target.prepare(name) == first, "name:prepare", lambda: (target.prepare(name), first))
    c.event("names", len(seen))
    c.key(name, len(seen))


GROUPS = [
    Group("history", history, 64, 2500, timeout=120),
    Group("names", names, 200, 5000),
]
