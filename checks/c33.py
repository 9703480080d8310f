"""Caches, orderings, lazy functions, distributions, logging and other helpers that everything else relies on."""
import datetime
import io
import logging
import math
import operator
import os
import re
import subprocess
import sys
import numpy as np
import scipy.stats
from lib.vp import Group, Discard, REPO
from checks.c24 import close
from spectrocrunch.utils import cache, integerbase, roi, listtools, instance, timing, comparable, hashable, classfactory, arraytricks, Enum
from spectrocrunch.utils.dict import defaultdict
from spectrocrunch.utils import subprocess as sub
from spectrocrunch.math import lazy, distributions, statistics
from spectrocrunch.process.nxresult import Group as NXGroup
from spectrocrunch.patch.pint import ureg

ID = "C33"
LEVEL = "exploration"
RULE = "random nestings, histories, values and orders of the elementary helpers; programs with logging options; special and extreme values"


# ---------------------------------------------------------------- caches


UNKNOWN = object()


class Boom(Exception):
    pass


def caches(c, rng):
    force = rng.random() < 0.3
    made = {"a": 0, "b": 0, "z": 0}

    class Thing(cache.Cache):
        x = 0

        def _cache_a(self, *args, **kw):
            made["a"] += 1
            return ("a", self.x, args, tuple(sorted(kw.items())))

        def _cache_b(self):
            made["b"] += 1
            return rng.choice([[], None, 0, {}, [self.x, self.getcache("a") if inctx["a"] else None]])

        def _cache_z(self):
            made["z"] += 1
            raise Boom("generator")

        @cache.withcache("a")
        def work(self, depth, fail):
            inctx["a"] += 1
            try:
                return body(depth, fail)
            finally:
                inctx["a"] -= 1

    inctx = {"a": 0, "b": 0}
    things = [Thing(force=force), Thing(force=force)]
    t = things[0]
    held = {}
    log = []

    def look():
        for k in ("a", "b"):
            before = made[k]
            if k in held:
                got = t.getcache(k)
                c.require(made[k] == before, "generated again in its context", "%s %s" % (k, log))
                c.require(got is held[k] if held[k] is not UNKNOWN else True, "cached object", "%s %s" % (k, log))
                held[k] = got
            elif force:
                try:
                    t.getcache(k)
                except RuntimeError:
                    pass
                else:
                    c.require(False, "cache outside context", "%s %s" % (k, log))
            else:
                t.x = rng.randint(0, 9)
                if k == "a":
                    got = t.getcache(k)
                    c.require(made[k] == before + 1 and got[1] == t.x, "not generated outside context", "%s %s" % (k, log))
            # other instances are not involved
            if not force and k == "a":
                before = made[k]
                things[1].x = 77
                c.require(things[1].getcache("a")[1] == 77 and made["a"] == before + 1, "cache of another instance", "%s" % log)
        try:
            t.getcache("nothing")
        except (RuntimeError, AttributeError):
            pass
        else:
            c.require(False, "unknown cache", "")
        c.event("cache lookups", 2)

    def body(depth, fail):
        look()
        if depth <= 0:
            if fail:
                raise Boom("body")
            return depth
        k = rng.choice(["a", "b", "a", "method", "z"])
        log.append(k)
        if k == "z":
            try:
                with t.cachectx("z"):
                    c.require(False, "failing generator", "")
            except Boom:
                pass
            c.require("z" not in t._store, "cache of failing generator", "")
            return body(depth - 1, fail)
        new = k if k != "method" else "a"
        mine = new not in held
        n = made[new]
        args = (rng.randint(0, 5),) if k == "a" and rng.random() < 0.5 else ()
        try:
            if k == "method":
                if mine:
                    held["a"] = UNKNOWN
                r = t.work(depth - 1, fail)
            else:
                with t.cachectx(k, *args):
                    c.require(made[k] == n + (1 if mine else 0), "generated on entering", "%s %s" % (k, log))
                    inctx[k] += 1
                    try:
                        if mine:
                            held[k] = t.getcache(k)
                            if k == "a":
                                c.require(held[k][2] == args, "generator arguments", "%s %s" % (held[k], args))
                        r = body(depth - 1, fail)
                    finally:
                        inctx[k] -= 1
        finally:
            if mine:
                held.pop(new, None)
            log.append("/" + k)
        look()
        return r

    for _ in range(rng.randint(1, 4)):
        fail = rng.random() < 0.4
        depth = rng.randint(0, 4)
        try:
            body(depth, fail)
        except Boom as e:
            c.require(fail and str(e) == "body", "exception", str(e))
        else:
            c.require(not fail, "exception swallowed", str(log))
        c.require(not held, "harness", "")
        look()
    # limited dictionary
    n = rng.choice([None, 1, 2, 5])
    d = cache.LimitedSizeDict(size_limit=n) if rng.random() < 0.7 else cache.LimitedSizeDict([(i, i) for i in range(4)], size_limit=n)
    ref = [] if not len(d) else [(i, i) for i in range(4)][-n if n else 0:]
    for _ in range(rng.randint(0, 30)):
        k, v = rng.randint(0, 8), rng.random()
        if rng.random() < 0.7:
            how = rng.choice(["set", "update"])
            if how == "set":
                d[k] = v
            else:
                d.update({k: v})
            if any(x[0] == k for x in ref):
                ref = [(x, v) if x == k else (x, y) for x, y in ref]
            else:
                ref.append((k, v))
            ref = ref[-n:] if n else ref
        else:
            d.pop(k, None)
            ref = [x for x in ref if x[0] != k]
        c.require(list(d.items()) == ref, "limited dictionary", lambda: "%s != %s" % (list(d.items()), ref))
    dd = defaultdict({1: 2})
    f = lambda x: ("made", x)
    c.require(dd[1] == 2 and dd[7] == 7 and 7 not in dd, "default dictionary", str(dd))
    dd.setdefaultfactory(f)
    c.require(dd[1] == 2 and dd["q"] == ("made", "q") and len(dd) == 1, "default dictionary", str(dd))
    e = Enum.Enum(["x", "yy"])
    c.require(e.x == "x" and e("yy") == "yy" and set(e) == {"x", "yy"}, "enumeration", str(e))
    try:
        e.zz
    except AttributeError:
        pass
    else:
        c.require(False, "enumeration", "unknown member")
    c.key(force, n, len(log))


# ---------------------------------------------------------------- orderings


def orders(c, rng):
    class Item(comparable.Comparable):
        def __init__(self, v):
            self.v = v

        @property
        def _repr(self):
            return "Item%03d" % self.v

        def _cmpkey(self, other):
            return self.v

    class HItem(hashable.CompHashable):
        def __init__(self, v):
            self.v = v

        @property
        def _repr(self):
            return "HItem%03d" % self.v

        def _cmpkey(self, other):
            return self._repr

        def _sortkey(self, other):
            return -self.v

    cls, sign = rng.choice([(Item, 1), (HItem, -1)])
    vals = [rng.randint(0, 6) for _ in range(rng.randint(1, 8))]
    items = [cls(v) for v in vals]
    got = [x.v for x in sorted(items)]
    c.require(got == sorted(vals, key=lambda v: sign * v), "sorted", "%s %s" % (cls.__name__, got))
    for a in items:
        for b in items:
            for op in (operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne):
                s = 1 if op in (operator.eq, operator.ne) else sign
                c.require(bool(op(a, b)) == op(s * a.v, s * b.v), "comparison", lambda: "%s %s %s" % (op.__name__, a, b))
        if cls is HItem:
            same = [b for b in items if b == a]
            c.require(all(hash(b) == hash(a) for b in same), "hash of equals", str(a))
    if cls is HItem:
        c.require(len(set(items)) == len(set(vals)) and {x: x.v for x in items}[cls(vals[0])] == vals[0], "set of items", str(vals))
    # Groups of detectors
    names = []
    for _ in range(rng.randint(1, 8)):
        n = rng.choice([0, 1, 2, 10, 11, 99])
        kind = rng.choice(["num", "det", "sum", "counters", "xia"])
        names.append({"num": n, "det": "detector%02d" % n, "sum": "S%d" % n, "counters": "counters", "xia": "xia%02d" % n}[kind])
    gs = [NXGroup(x) for x in names]

    def ident(x):
        if x == "counters":
            return "counters"
        return ("S%d" % int(x[1:])) if isinstance(x, str) and x.startswith("S") else "%02d" % int(re.sub(r"\D", "", str(x)))

    ids = [ident(x) for x in names]
    for g, i in zip(gs, ids):
        c.require(g.isdetector == (i != "counters") and g.issum == i.startswith("S"), "group kind", "%s %s" % (g, i))
        c.require(g.name == ("counters" if i == "counters" else "detector" + i), "group name", "%s %s" % (g.name, i))
        if i != "counters":
            c.require(g.xialabel == "xia" + i, "group label", "%s %s" % (g.xialabel, i))
        c.require(NXGroup(g) == g and NXGroup(g.name) == g, "group of group", str(i))
        for h, j in zip(gs, ids):
            c.require((g == h) == (i == j) and (i != j or hash(g) == hash(h)), "equal groups", "%s %s" % (i, j))
    c.require(len(set(gs)) == len(set(ids)), "set of groups", str(ids))
    srt = sorted(set(gs))
    c.require({g.name for g in srt} == {g.name for g in gs}, "sorted groups", str(srt))
    c.require([g.name for g in sorted(srt, reverse=True)] == [g.name for g in srt][::-1], "order of groups", str(srt))
    # Registered classes
    base = classfactory.with_metaclass(object)

    class Root(base):
        pass

    made = {}
    for i in range(rng.randint(1, 5)):
        nm = rng.choice(["Alpha", "beta", "Gamma_1", "XX"]) + str(i)
        al = ["%s_%d" % (rng.choice(["Nick", "other"]), i)] if rng.random() < 0.6 else []
        parent = rng.choice([Root] + [x[0] for x in made.values()])
        k = type(Root)(nm, (parent,), {"aliases": al, "__init__": lambda self, *a, **kw: setattr(self, "args", (a, kw))})
        made[nm] = (k, al, parent)
    for nm, (k, al, parent) in made.items():
        for x in [nm, nm.lower()] + al + [a.lower() for a in al]:
            c.require(Root.clsfactory(x) is k, "class from name", "%s %s" % (x, list(made)))
            o = Root.factory(x, 1, b=2)
            c.require(type(o) is k and o.args == ((1,), {"b": 2}), "instance from name", x)
        c.require(nm in Root.clsnames() and nm in Root.clsallnames() and all(a in Root.clsaliases() for a in al), "names", nm)
    try:
        Root.clsfactory("unknown")
    except RuntimeError:
        pass
    else:
        c.require(False, "unknown class", "")
    c.event("orderings")
    c.key(cls.__name__, len(vals), len(names))


# ---------------------------------------------------------------- lists and numbers


def lists(c, rng):
    r = c.np
    n = rng.randint(0, 8)
    L = [rng.choice([0, 1, 2, "a", "b"]) for _ in range(n)]
    nums = [rng.randint(0, 4) for _ in range(n)]
    other = [rng.randint(0, 100) for _ in range(n)]
    c.require(list(listtools.unique_everseen(L)) == list(dict.fromkeys(L)), "unique", str(L))
    c.require(list(listtools.unique_everseen(nums, key=lambda x: x % 2)) == [nums[i] for i in range(n) if all(nums[i] % 2 != x % 2 for x in nums[:i])], "unique by key", str(nums))
    if n:
        a, b = listtools.sort2lists(nums, other)
        c.require(list(zip(a, b)) == sorted(zip(nums, other), key=lambda x: x[0]), "sorted lists", "%s %s" % (nums, other))
        a, b = listtools.unique2lists(nums, other)
        exp = {}
        for k, v in zip(nums, other):
            exp.setdefault(k, v)
        c.require((list(a), list(b)) == (list(exp), list(exp.values())), "unique lists", "%s %s" % (nums, other))
        i, j = rng.randrange(n), rng.randrange(n)
        m = listtools.move(list(L), i, j)
        e = list(L)
        x = e.pop(i)
        e = e[:j] + [x] + e[j:]
        c.require(m == e, "move", "%s %d %d" % (L, i, j))
        s = listtools.swap(list(L), i, j)
        c.require(all(s[k] == L[{i: j, j: i}.get(k, k)] for k in range(n)), "swap", "%s %d %d" % (L, i, j))
        k = rng.randint(0, 2 * n)
        c.require(list(listtools.roll(list(L), k)) == [L[(q + k) % n] for q in range(n)], "roll", "%s %d" % (L, k))
        idx = [rng.randrange(n) for _ in range(rng.randint(0, 5))]
        msk = [rng.random() < 0.5 for _ in range(n)]
        c.require(listtools.listadvanced(L, idx) == [L[q] for q in idx], "index", "%s %s" % (L, idx))
        c.require(listtools.listadvanced(L, msk) == [x for x, y in zip(L, msk) if y], "mask", "%s %s" % (L, msk))
        c.require(listtools.listadvanced_bool(L, msk, bnot=True) == [x for x, y in zip(L, msk) if not y], "mask", "%s %s" % (L, msk))
    a, b = listtools.unique2lists(nums, other, add=True)
    exp = {}
    for k, v in zip(nums, other):
        exp[k] = exp.get(k, 0) + v
    c.require((list(a), list(b)) == (list(exp), list(exp.values())), "added lists", "%s %s" % (nums, other))
    a, b = listtools.sumrepeats(nums, other)
    c.require(dict(zip(a, b)) == exp, "sum of repeats", "%s %s" % (nums, other))
    c.require(listtools.where(nums, lambda x: x > 1) == [i for i, x in enumerate(nums) if x > 1], "where", str(nums))

    def nest(depth):
        return [nest(depth - 1) if depth and rng.random() < 0.4 else rng.choice([1, 2.5, "ab", b"x", None]) for _ in range(rng.randint(0, 3))]

    def flat(x):
        return [z for y in x for z in (flat(y) if isinstance(y, list) else [y])]

    x = nest(3)
    c.require(list(listtools.flatten(x)) == flat(x), "flatten", str(x))
    # numbers in any base
    digs = rng.choice([None, ["0", "1"], list("abcdefghijklmnopqrstuvwxyz"), list("0123456789"), list("zyx")])
    ib = integerbase.integerbase() if digs is None else integerbase.integerbase(digs)
    seen = {}
    for v in [0, 1, rng.randint(0, 100), rng.randint(0, 10 ** 12), ib.base, ib.base ** rng.randint(1, 5), ib.base ** 3 - 1] + [-rng.randint(1, 10 ** 6)] * (rng.random() < 0.5):
        s = ib.int2base(v)
        c.require(ib.base2int(s) == v, "base conversion", "%d %s" % (v, s))
        c.require(seen.setdefault(s, v) == v, "base conversion", "%d %s" % (v, s))
        if digs == ["0", "1"] and v >= 0:
            c.require(s == bin(v)[2:], "binary", "%d %s" % (v, s))
        if digs is None and v >= 0:
            c.require(s == "%X" % v, "hexadecimal", "%d %s" % (v, s))
    # regions
    shape = tuple(rng.randint(1, 9) for _ in range(rng.randint(1, 3)))
    arr = np.arange(int(np.prod(shape))).reshape(shape)
    want = []
    for k in shape:
        a, b = rng.choice([None, rng.randint(-2 * k, k - 1)]), rng.choice([None, rng.randint(-2 * k, k + 5)])
        want.append((a, b))
    got = roi.cliproi(shape, want)
    c.require(all(0 <= a <= k and 0 <= b <= k for (a, b), k in zip(got, shape)), "region outside", "%s %s %s" % (shape, want, got))
    sl = arr[tuple(slice(a, b) for a, b in want)]
    c.require(np.array_equal(arr[tuple(slice(a, b) for a, b in got)], sl), "clipped region", "%s %s %s" % (shape, want, got))
    try:
        roi.cliproi(shape + (2,), want)
    except ValueError:
        pass
    else:
        c.require(False, "region of other dimensions", "")
    iv = []
    for _ in range(rng.randint(0, 6)):
        a = rng.randint(0, 20)
        iv.append((a, a + rng.randint(0, 6)))
    m = list(roi.mergeroi1d(iv))
    inside = lambda x, l: any(a <= x <= b for a, b in l)
    c.require(all(inside(x / 2, m) == inside(x / 2, iv) for x in range(-2, 60)), "merged intervals", "%s %s" % (iv, m))
    c.require(all(m[i][1] < m[i + 1][0] for i in range(len(m) - 1)), "overlapping intervals", "%s %s" % (iv, m))
    # tiling
    s = r.rand(rng.randint(1, 3), rng.randint(1, 3))
    reps = rng.randint(1, 4)
    for dirs in (0, 1, 2):
        sh = (s.shape[0] * (reps if dirs != 1 else 1), s.shape[1] * (reps if dirs != 0 else 1))
        dest = np.zeros(sh)
        arraytricks.tile(s, dest, reps, dirs)
        exp = np.tile(s, (reps, 1)) if dirs == 0 else np.tile(s, (1, reps)) if dirs == 1 else np.kron(np.eye(reps), s)
        c.require(np.array_equal(dest, exp), "tile", "%s %d %d" % (s.shape, reps, dirs))
    c.event("list cases")
    c.key(n, shape, len(iv))


def arrays(c, rng):
    """anything to array and back"""
    kind = rng.choice(["scalar", "npscalar", "list", "tuple", "array", "array0", "qscalar", "qarray", "qlist", "string", "none", "empty", "range", "bool"])
    v = [round(rng.uniform(-5, 5), 3) for _ in range(rng.randint(1, 4))]
    u = rng.choice(["keV", "mm", "s"])
    x = {
        "scalar": v[0], "npscalar": np.float32(v[0]), "list": v, "tuple": tuple(v), "array": np.array(v), "array0": np.array(v[0]),
        "qscalar": ureg.Quantity(v[0], u), "qarray": ureg.Quantity(np.array(v), u), "qlist": [ureg.Quantity(a, u) for a in v],
        "string": "abc", "none": None, "empty": [] if rng.random() < 0.5 else (), "range": range(len(v)), "bool": True,
    }[kind]
    arr, back = instance.asarrayf(x)
    c.require(isinstance(arr, np.ndarray) and arr.ndim >= 1, "array", "%s %r" % (kind, arr))
    vals = {"range": list(range(len(v))), "string": ["abc"], "none": [None], "empty": [], "bool": [True]}.get(kind, v[:1] if kind in ("scalar", "npscalar", "array0", "qscalar") else v)
    c.require(len(arr) == len(vals), "array size", "%s %r" % (kind, arr))
    mag = [a.to(u).magnitude if kind[0] == "q" else a for a in arr]
    c.require(all(a == b or (kind == "npscalar" and abs(a - b) < 1e-5) for a, b in zip(mag, vals)), "array values", "%s %r" % (kind, arr))
    if kind not in ("string", "none", "bool"):
        y = back(np.array([2 * a for a in vals]) if vals else np.array([]))
        if kind[0] == "q":
            c.require(instance.isquantity(y) and str(y.units) == str(ureg.Quantity(1, u).units), "unit comes back", "%s %r" % (kind, y))
            y = y.magnitude
        if kind in ("scalar", "npscalar", "qscalar"):
            c.require(np.ndim(y) == 0, "scalar comes back", "%s %r" % (kind, y))
        elif kind == "array0":
            c.require(isinstance(y, np.ndarray) and y.ndim == 0, "0-d array comes back", "%s %r" % (kind, y))
        else:
            c.require(np.ndim(y) == 1 and len(y) == len(vals), "array comes back", "%s %r" % (kind, y))
        c.require(np.allclose(np.atleast_1d(y), [2 * a for a in vals]), "values come back", "%s %r" % (kind, y))
    if kind[0] != "q":
        c.require(instance.aslist(x) == list(arr), "list", "%s" % kind)
    # kinds of objects
    facts = {
        "isstring": (["a", b"a", np.str_("a"), ""], [1, ["a"], None, np.array(["a"])]),
        "isnumber": ([1, 1.5, True, 1j, np.float32(1), np.int8(1)], ["1", [1], None, np.array([1])]),
        "isinteger": ([1, np.int8(1), True], [1.0, np.float64(1), "1"]),
        "isarray": ([[], (), np.array(1), {1}, range(2), np.zeros(2), ureg.Quantity([1, 2], "s"), bytearray(b"a")], ["ab", b"ab", 1, None, {1: 2}, ureg.Quantity(1, "s")]),
        "isarray0": ([np.array(1)], [[], np.zeros(2), 1]),
        "isscalar": ([1, np.float64(2), ureg.Quantity(1, "s"), 2.5], [[1], np.array([1]), ureg.Quantity([1], "s"), "a"]),
        "isquantity": ([ureg.Quantity(1, "s"), ureg.Quantity([1], "s")], [1, "1 s"]),
        "isiterable": ([[], {1: 2}, iter([1]), np.zeros(2), ureg.Quantity([1], "s")], ["ab", b"ab", 3, ureg.Quantity(1, "s")]),
        "issequence": ([[], (), range(3)], ["a", {1}, {1: 2}, np.zeros(2)]),
        "isnumeric": ([1, 2.5], [True, "1"]),
        "isboolsequence": ([[True], (True, False)], [[], [1, 0], 1]),
    }
    for f, (yes, no) in facts.items():
        for o in yes:
            c.require(bool(getattr(instance, f)(o)), f, "not %r" % (o,))
        for o in no:
            c.require(not getattr(instance, f)(o), f, "%r" % (o,))
    a = rng.choice([rng.randint(-100, 100), round(rng.uniform(-1, 1), 6), 1e300, 1e-300])
    for s in [a, str(a), repr(a), " %r" % a if rng.random() < 0.3 else "%r" % a]:
        c.require(instance.asnumber(s) == a, "number from text", "%r" % (s,))
    c.require(math.isnan(instance.asnumber("abc")) and math.isnan(instance.asnumber(None)), "not a number", "")
    c.event("conversions")
    c.key(kind)


# ---------------------------------------------------------------- lazy functions


def lazies(c, rng):
    def expr(depth):
        """(lazy or number, plain function)"""
        if depth == 0 or rng.random() < 0.2:
            k = rng.choice(["x", "y", "num"])
            if k == "num":
                v = rng.choice([1, 2, 3, 0.5, 7])
                return v, lambda x, y: v
            if k == "x":
                return lazy.Function(lambda x, y: x, name="x"), lambda x, y: x
            return lazy.Function(lambda x, y: y, name="y"), lambda x, y: y
        ops = [operator.add, operator.sub, operator.mul, operator.truediv, operator.floordiv, operator.mod, operator.pow, divmod]
        cmps = [operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne]
        una = [operator.neg, operator.pos, abs]
        k = rng.choice(["bin", "bin", "bin", "cmp", "una"])
        A, fa = expr(depth - 1)
        if k == "una":
            op = rng.choice(una)
            return op(A), lambda x, y: op(fa(x, y))
        B, fb = expr(depth - 1)
        op = rng.choice(ops if k == "bin" else cmps)
        if op is divmod and depth != top:
            op = operator.mul
        if op is operator.pow and depth != 1:
            op = operator.add
        return op(A, B), lambda x, y: op(fa(x, y), fb(x, y))

    top = rng.randint(1, 4)
    x, y = rng.choice([2, 3, 0.5, 5]), rng.choice([1, 4, 1.5])
    try:
        L, f = expr(top)
        exp = f(x, y)
    except (ZeroDivisionError, OverflowError, TypeError):
        raise Discard
    if not isinstance(L, lazy.Function):
        raise Discard
    got = L(x, y) if rng.random() < 0.5 else L(x, y=y)
    same = lambda a, b: a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))
    ok = same(got, exp) if not isinstance(exp, tuple) else isinstance(got, tuple) and len(got) == 2 and all(same(a, b) for a, b in zip(got, exp))
    c.require(ok, "lazy value", lambda: "%s(%s,%s) = %s != %s" % (L, x, y, got, exp))
    c.require(isinstance(str(L), str) and str(L), "lazy name", "")
    a, b = rng.random() < 0.5, rng.random() < 0.5
    A, B = lazy.Function(lambda: a, name="A"), lazy.Function(lambda: b, name="B")
    c.require((A & B)() == (a and b) and (A | B)() == (a or b), "lazy logic", "%s %s" % (a, b))
    c.event("lazy expressions")
    c.key(str(L))


# ---------------------------------------------------------------- statistics


def stats(c, rng):
    r = c.np
    k = rng.choice([0.1, 0.5, 1.0, 2.0, 3.5, rng.uniform(0.05, 5)])
    d = distributions.limitednorm(rng.choice([1, -1]) * k)
    ref = scipy.stats.truncnorm(-k, k)
    x = np.concatenate([r.uniform(-1.3 * k, 1.3 * k, 5), [0, -k * 0.999, k * 0.999, -2 * k, 2 * k]])
    p = np.concatenate([r.uniform(0, 1, 5), [0.001, 0.5, 0.999]])
    close(c, d.pdf(x), ref.pdf(x), "density", rtol=1e-8, atol=1e-12, info="%s" % k)
    close(c, d.cdf(x), ref.cdf(x), "cumulative", rtol=1e-8, atol=1e-12, info="%s" % k)
    close(c, d.ppf(p), ref.ppf(p), "quantiles", rtol=1e-7, atol=1e-9, info="%s" % k)
    close(c, d.mean(), 0, "mean", rtol=1e-7, atol=1e-9, info="%s" % k)
    close(c, d.var(), ref.var(), "variance", rtol=1e-6, atol=1e-9, info="%s" % k)
    s = d.rvs(size=50, random_state=r)
    c.require(np.all(np.abs(s) <= k * (1 + 1e-9)), "samples", "%s %s" % (k, np.abs(s).max()))
    # outliers
    n = rng.randint(3, 30)
    v = r.normal(0, 1, n) * rng.choice([1e-6, 1, 1e6]) + rng.choice([0, 100])
    far = rng.sample(range(n), rng.randint(0, max((n - 2) // 3, 0)))
    med, mad = np.median(v), 1.4826 * np.median(np.abs(v - np.median(v)))
    for i in far:
        v[i] = med + rng.choice([-1, 1]) * 1e3 * mad * rng.uniform(1, 2)
    ns = rng.choice([3, 5, 10])
    dev = np.abs(v - np.median(v))
    cut = rng.choice(["normal", "other"])
    scale = np.median(dev) * (1.4826 if cut == "normal" else 1)
    got = statistics.outlierdetection(v, ns, pdf=cut)
    sure = np.abs(dev / scale - ns) > 1e-9
    c.require(got.shape == v.shape and np.array_equal(got[sure], (dev / scale > ns)[sure]), "outliers", lambda: "%s %s %s" % (v, ns, got))
    m = rng.randint(1, n)
    got = statistics.outlierdetection(v, ns, noutliers=m)
    c.require(got.sum() == m and (m == n or dev[got].min() >= dev[~got].max()), "number of outliers", lambda: "%s %d %s" % (v, m, got))
    c.require(not statistics.outlierdetection(np.full(n, 3.0), ns).any(), "outliers of a constant", "")
    # durations
    days = rng.choice([0, 0, 1, 3])
    t = days * 86400 + rng.randint(0, 86399) + rng.choice([0, 0.25, 0.999])
    h, mi, se = timing.hms(t)
    c.require(0 <= mi < 60 and 0 <= se < 60 and h * 3600 + mi * 60 + se == int(t), "duration", "%s %s" % (t, (h, mi, se)))
    c.require([int(q) for q in re.findall(r"\d+", timing.strseconds(t))] == [h, mi, se], "duration text", timing.strseconds(t))
    rec = []
    lg = logging.Logger("c33")
    lg.addHandler(logging.StreamHandler(io.StringIO()))
    lg.info = lambda m, *a: rec.append(m % a if a else m)
    t = int(t) + 0.4
    timing.printtimeelapsed(datetime.datetime.now() - datetime.timedelta(seconds=t), logger=lg)
    hh, mm, ss = [int(q) for q in re.findall(r"(\d+)[hms]", rec[-1])]
    c.require(0 <= hh * 3600 + mm * 60 + ss - int(t) <= 3, "elapsed time", "%s for %s s" % (rec[-1], t))
    pl = timing.ProgressLogger(lg)
    tot, fine = rng.randint(1, 20), rng.randint(1, 4)
    pl.setn(tot)
    pl.setnfine(fine)
    pl.T0 = datetime.datetime.now() - datetime.timedelta(seconds=t)
    done, f = rng.randint(0, tot), 0
    pl.ndone(done)
    if done < tot:
        f = rng.randint(0, fine)
        pl.ndonefine(f)
    part = (done * fine + f) / (tot * fine)
    if part:
        pl.printprogress()
        q = [int(z) for z in re.findall(r"\d+", rec[-1])]
        c.require(abs(q[3] - 100 * part) <= 1 and abs(q[7] - 100 * (1 - part)) <= 1, "progress", "%s for %s" % (rec[-1], part))
        c.require(abs(q[0] * 3600 + q[1] * 60 + q[2] - t) <= 3, "elapsed time", "%s for %s s" % (rec[-1], t))
        left = t / part - t
        c.require(abs(q[4] * 3600 + q[5] * 60 + q[6] - left) <= 3 + 4 / part, "time left", "%s for %s" % (rec[-1], left))
    c.event("statistics")
    c.key(round(k, 3), n)


# ---------------------------------------------------------------- programs


PROG = """
import sys
sys.path.insert(0, %r)
from spectrocrunch.utils import cli
logger = cli.getLogger(__name__, "prog.py")
for level in ("debug", "info", "warning", "error", "critical"):
    getattr(logger, level)("message-" + level)
"""
LEVELS = ["debug", "info", "warning", "error", "critical"]


def programs(c, rng):
    f = os.path.join(c.dir, "prog.py")
    with open(f, "w") as fh:
        fh.write(PROG % os.path.join(REPO, "src"))
    level = rng.choice(["", "debug", "info", "warning", "ERROR", "Critical"])
    argv = []
    if level:
        argv.append("--log=" + level)
    files = {}
    for k in ("logfile", "stdout", "stderr"):
        if rng.random() < 0.4:
            files[k] = os.path.join(c.dir, k + ".log")
            argv.append("--%s=%s" % (k, files[k]))
    if rng.random() < 0.3:
        argv.append("--unknown=3")
    rng.shuffle(argv)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, f] + argv, cwd=c.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
    c.require(p.returncode == 0, "program failed", p.stderr[-500:])
    first = LEVELS.index(level.lower() if level else "warning")
    get = lambda s: [x for x in LEVELS if "message-" + x in s]
    low, high = [x for x in LEVELS[first:] if x in ("debug", "info")], [x for x in LEVELS[first:] if x not in ("debug", "info")]
    out = {k: open(v).read() for k, v in files.items()}
    what = "%s" % argv
    if "logfile" in files:
        c.require(get(out["logfile"]) == LEVELS[first:], "log file", "%s %r" % (what, out["logfile"]))
    c.require(get(out["stdout"] if "stdout" in files else p.stdout) == low, "messages below warning", "%s %r" % (what, p.stdout))
    c.require(get(out["stderr"] if "stderr" in files else p.stderr) == high, "warnings and errors", "%s %r" % (what, p.stderr))
    if "stdout" in files:
        c.require(not get(p.stdout), "redirected messages", what)
    if "stderr" in files:
        c.require(not get(p.stderr), "redirected warnings", what)
    # other programs
    code, n = rng.choice([0, 1, 3]), rng.randint(0, 1000)
    prog = "import sys; sys.stdout.write('o%d'); sys.stderr.write('e%d'); sys.exit(%d)" % (n, n, code)
    so, se = rng.random() < 0.5, rng.random() < 0.5
    kw = {"stdout": so, "stderr": se}
    if not so or not se:
        # not captured: goes where ours goes, keep it quiet
        prog = prog.replace("sys.stdout.write('o%d'); " % n, "") if not so else prog
        prog = prog.replace("sys.stderr.write('e%d'); " % n, "") if not se else prog
    o, e, ret = sub.execute(sys.executable, "-c", prog, cwd=c.dir, **kw)
    c.require(ret == code, "return code", "%s %s" % (ret, code))
    c.require((o or b"") == (b"o%d" % n if so else b"") and (e or b"") == (b"e%d" % n if se else b""), "captured output", "%s %s" % (o, e))
    c.require(sub.installed(sys.executable, "-c", "pass") is True and not sub.installed("no-such-program-%d" % n), "installed", "")
    o, e, ret = sub.execute("no-such-program-%d" % n)
    c.require(o is None and e is None and ret not in (0, None), "missing program", "%s" % ret)
    c.event("programs", 2)
    c.key(level, sorted(files))


GROUPS = [
    Group("caches", caches, 200, 8000, minimum=150),
    Group("orders", orders, 150, 5000, minimum=100),
    Group("lists", lists, 300, 15000, minimum=250),
    Group("arrays", arrays, 150, 5000, minimum=120),
    Group("lazies", lazies, 400, 20000, minimum=150),
    Group("stats", stats, 100, 3000, minimum=80),
    Group("programs", programs, 24, 300, minimum=20),
]
