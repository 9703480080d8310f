"""Content hashes: deterministic, representation independent, sensitive to content."""
import os
import sys
import json
import copy
import subprocess
from collections import OrderedDict
import numpy as np
from lib.vp import Group, REPO, VERIF
from spectrocrunch.utils import hashing
from spectrocrunch.utils.lut import LUT
from spectrocrunch.patch.pint import ureg

ID = "C16"
LEVEL = "exploration"
RULE = (
    "random nested data (mappings, ordered mappings, sets, sequences, numpy arrays, numbers of all "
    "types, text and bytes, quantities, lookup tables; depth up to 4); every tree is hashed in "
    "re-ordered and re-typed forms (must agree), after one edit (must differ) and in other "
    "interpreters with other string-hash seeds; non-trivial when the tree has more than one leaf"
)

WORDS = ["a", "b", "name", "énergie", "0", "1", "", "True", "None", "x" * 20, "a b", "ab", "unité µ"]


def leaf(rng):
    k = rng.randint(0, 6)
    if k == 0:
        return rng.choice([0, 1, -1, 2, 10, 255, 10**12, -(10**20), rng.randint(-1000, 1000)])
    if k == 1:
        return rng.choice([0.5, -2.25, 1e-9, 1e300, rng.random(), float("inf")])
    if k == 2:
        return rng.choice([True, False])
    if k == 3:
        return None
    return rng.choice(WORDS)


def tree(rng, depth=0):
    if depth >= 3 or rng.random() < 0.3 + 0.1 * depth:
        return leaf(rng)
    k = rng.choice(["list", "tuple", "dict", "dict", "odict", "set", "array", "quantity", "frozenset"])
    n = rng.randint(1, 4)
    if k == "list":
        return [tree(rng, depth + 1) for _ in range(n)]
    if k == "tuple":
        return tuple(tree(rng, depth + 1) for _ in range(n))
    if k in ("dict", "odict"):
        items = [(rng.choice(WORDS + [1, 2, 3, 2.5]), tree(rng, depth + 1)) for _ in range(n)]
        seen, uniq = set(), []
        for key, v in items:
            if repr(key) not in seen and key not in (True, False):
                seen.add(repr(key))
                uniq.append((key, v))
        uniq = [kv for kv in uniq if not isinstance(kv[0], int) or kv[0] != 1] or [("k", 0)]
        return OrderedDict(uniq) if k == "odict" else dict(uniq)
    if k in ("set", "frozenset"):
        s = {x for x in (leaf(rng) for _ in range(n)) if not (x == 0 or x == 1)} or {"s"}
        return s if k == "set" else frozenset(s)
    if k == "array":
        if rng.random() < 0.5:
            return np.array([rng.randint(-9, 9) for _ in range(n)])
        return np.array([rng.random() for _ in range(n)])
    return ureg.Quantity(rng.choice([1, 2.5, 7]), rng.choice(["um", "keV", "s", "mm**2"]))


def plain_dict(x):
    return isinstance(x, dict) and not isinstance(x, OrderedDict)


def leaves(x):
    if isinstance(x, dict):
        return sum(leaves(v) + 1 for v in x.values())
    if isinstance(x, (list, tuple, set, frozenset)):
        return sum(leaves(v) for v in x)
    if isinstance(x, np.ndarray):
        return x.size
    return 1


def reorder(x, rng):
    """Same content: mappings rebuilt in another insertion order"""
    if isinstance(x, OrderedDict):
        return OrderedDict((k, reorder(v, rng)) for k, v in x.items())
    if isinstance(x, dict):
        items = [(k, reorder(v, rng)) for k, v in x.items()]
        rng.shuffle(items)
        return dict(items)
    if isinstance(x, (set, frozenset)):
        lst = list(x)
        rng.shuffle(lst)
        return type(x)(lst)
    if isinstance(x, (list, tuple)):
        return type(x)(reorder(v, rng) for v in x)
    return x


def retype(x, rng):
    """Same content: another representation of numbers, text and sequences"""
    if isinstance(x, OrderedDict):
        return OrderedDict((retype(k, rng), retype(v, rng)) for k, v in x.items())
    if isinstance(x, dict):
        return {retype(k, rng): retype(v, rng) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        t = rng.choice([set, frozenset])
        return t(retype(v, rng) for v in x)
    if isinstance(x, (list, tuple)):
        t = rng.choice([list, tuple])
        return t(retype(v, rng) for v in x)
    if isinstance(x, np.ndarray):
        return rng.choice([x.copy(), x.tolist(), tuple(x.tolist())])
    if isinstance(x, str):
        return x.encode("utf8") if rng.random() < 0.5 else np.str_(x)
    if isinstance(x, bool):
        return rng.choice([int(x), float(x), np.int64(x)])
    if isinstance(x, int) and abs(x) < 2**31:
        return rng.choice([float(x), np.int32(x), np.float64(x), np.int64(x)])
    if isinstance(x, float) and np.isfinite(x):
        return np.float64(x)
    return x


def mutate(x, rng):
    """Different content by one edit"""
    if isinstance(x, dict):
        t = type(x)
        items = list(x.items())
        i = rng.randrange(len(items))
        k = rng.randint(0, 3)
        if k == 0:
            items[i] = ("another_" + repr(items[i][0]), items[i][1])
        elif k == 1:
            items.append(("extra", leaf(rng)))
        elif k == 2 and len(items) > 1:
            items.pop(i)
        else:
            items[i] = (items[i][0], mutate(items[i][1], rng))
        return t(items)
    if isinstance(x, (set, frozenset)):
        lst = list(x)
        if rng.random() < 0.5:
            lst.append("extra")
        else:
            lst[0] = mutate(lst[0], rng)
        return type(x)(lst)
    if isinstance(x, (list, tuple)):
        lst = list(x)
        k = rng.randint(0, 2)
        if k == 0:
            lst.insert(rng.randint(0, len(lst)), "inserted")
        elif k == 1 and len(lst) > 1:
            lst.pop(rng.randrange(len(lst)))
        else:
            i = rng.randrange(len(lst))
            lst[i] = mutate(lst[i], rng)
        return type(x)(lst)
    if isinstance(x, np.ndarray):
        y = x.copy()
        i = rng.randrange(y.size)
        y[i] = y[i] + 1
        return y
    if isinstance(x, ureg.Quantity):
        return rng.choice([x + ureg.Quantity(1, x.units), ureg.Quantity(x.magnitude, "kg")])
    if isinstance(x, str):
        return x + rng.choice(["'", " ", "1", "a"])
    if isinstance(x, bool):
        return not x
    if isinstance(x, (int, float)):
        y = x + 1 if x + 1 != x else (x * 2 if x * 2 != x else -x)
        return y
    if x is None:
        return rng.choice([0, "None", "", False])
    raise TypeError(x)


def case_same(c, rng):
    x = tree(rng)
    if leaves(x) <= 1:
        c.trivial()
    c.key(x)
    c.sample(x)
    h = hashing.calchash(x)
    c.require(isinstance(h, bytes) and len(h.decode("ascii")) >= 32, "type", repr(h))
    for what, y in (("again", x), ("deepcopy", copy.deepcopy(x)), ("reordered", reorder(x, rng)), ("retyped", retype(x, rng))):
        c.event("equal_pairs")
        c.require(hashing.calchash(y) == h, "same." + what, lambda: "{!r} and {!r} hash differently".format(x, y))
        c.require(hashing.hashequal(x, y), "hashequal." + what, lambda: "{!r} {!r}".format(x, y))


def case_differ(c, rng):
    x = tree(rng)
    y = mutate(copy.deepcopy(x), rng)
    c.key(x, y)
    c.event("different_pairs")
    c.require(hashing.calchash(x) != hashing.calchash(y), "differ", lambda: "{!r} and {!r} have the same hash".format(x, y))
    c.require(not hashing.hashequal(x, y), "differ.hashequal", lambda: "{!r} {!r}".format(x, y))


def case_swap(c, rng):
    """order matters in sequences and in ordered mappings, and values stay with their keys"""
    a, b = leaf(rng), leaf(rng)
    while hashing.calchash(a) == hashing.calchash(b):
        b = mutate(b, rng)
    c.key(a, b)
    f = rng.choice([
        lambda a, b: [a, b], lambda a, b: (a, b), lambda a, b: {"k": a, "l": b},
        lambda a, b: {"l": a, "k": b}, lambda a, b: {"z": [a], "y": [b]},
        lambda a, b: OrderedDict([("k", a), ("l", b)]), lambda a, b: [[a], [b, b]],
        lambda a, b: {"p": {"k": a}, "q": {"k": b}},
    ])
    c.event("swapped_pairs")
    c.require(hashing.calchash(f(a, b)) != hashing.calchash(f(b, a)), "swap", lambda: repr(f(a, b)))
    o1, o2 = OrderedDict([("k", a), ("l", b)]), OrderedDict([("l", b), ("k", a)])
    c.require(hashing.calchash(o1) != hashing.calchash(o2), "swap.ordered", lambda: repr(o1))
    # same leaves, other nesting
    c.require(hashing.calchash([a, [b]]) != hashing.calchash([[a], b]), "nesting", lambda: repr((a, b)))


class Custom(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def case_objects(c, rng):
    n = rng.randint(1, 4)
    x = rng.sample(range(50), n)
    y = [rng.randint(0, 99) for _ in range(n)]
    l1, l2 = LUT(x=x, y=y), LUT(x=x, y=y)
    y2 = list(y)
    y2[0] += 1
    l3 = LUT(x=x, y=y2)
    c.key(x, y)
    c.require(hashing.calchash(l1) == hashing.calchash(l2), "object.same", repr((x, y)))
    c.require(hashing.calchash(l1) != hashing.calchash(l3), "object.differ", repr((x, y)))
    kw = {w: leaf(rng) for w in rng.sample(["p", "q", "r", "s"], rng.randint(1, 4))}
    kw2 = dict(reversed(list(kw.items())))
    c.require(hashing.calchash(Custom(**kw)) == hashing.calchash(Custom(**kw2)), "object.attrs", repr(kw))
    k = rng.choice(list(kw))
    kw2[k] = mutate(kw2[k], rng)
    c.require(hashing.calchash(Custom(**kw)) != hashing.calchash(Custom(**kw2)), "object.attrs.differ", repr((kw, kw2)))
    c.event("object_pairs", 4)


CHILD = """
import sys, json, random
sys.path[:0] = [{src!r}, {verif!r}]
import logging; logging.disable(50)
from checks import c16
print("HASHES" + json.dumps(c16.batch({seed!r}, {n})))
"""


def batch(seed, n):
    import random

    rng = random.Random(seed)
    return [hashing.calchash(tree(rng)).decode() for _ in range(n)]


def case_process(c, rng):
    seed, n = c.seedstr, 200
    here = batch(seed, n)
    c.key(seed)
    for hs in ("random", str(rng.randint(2, 10**6))):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        out = subprocess.run(
            [sys.executable, "-s", "-c", CHILD.format(src=os.path.join(REPO, "src"), verif=VERIF, seed=seed, n=n)],
            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
        txt = out.stdout.decode()
        there = [l for l in txt.splitlines() if l.startswith("HASHES")]
        c.require(bool(there), "process.crash", txt[-2000:])
        there = json.loads(there[0][6:])
        bad = [i for i, (a, b) in enumerate(zip(here, there)) if a != b]
        c.require(len(here) == len(there) and not bad, "process",
                  lambda: "PYTHONHASHSEED={}: trees {} of batch {} hash differently in another process".format(hs, bad[:5], seed))
        c.event("cross_process_hashes", n)


GROUPS = [
    Group("same", case_same, 4000, 80000),
    Group("differ", case_differ, 6000, 120000),
    Group("swap", case_swap, 2000, 40000),
    Group("objects", case_objects, 400, 8000),
    Group("process", case_process, 4, 40, timeout=240),
]
MIN_EVENTS = {"equal_pairs": 1000, "different_pairs": 500, "cross_process_hashes": 200}
