"""Lazy stack indexing agrees with numpy."""
import numpy as np
from lib.vp import Group, Discard
from spectrocrunch.utils import indexing

ID = "C15"
LEVEL = "exploration"
RULE = (
    "random stacks (1-4 dims, sizes 1-6, any stack axis, negative too) and random indices "
    "(integers, slices with any step, integer lists, boolean lists, ranges, Ellipsis, newaxis); "
    "non-trivial when the index is not a full slice; distinct by shape, axis and index"
)


def rand_slice(rng, n):
    def e():
        return rng.choice([None, rng.randint(-n - 1, n + 1)])

    step = rng.choice([None, None, 1, 2, 3, -1, -2])
    return slice(e(), e(), step)


def rand_index(rng, shape, allow_new=True, allow_list=True, dup=True, empty=True):
    """Index valid for numpy (lists of one length)"""
    nd = len(shape)
    nused = rng.randint(1, nd)
    # numpy only lets an Ellipsis of zero length act as a separator: not generated
    ell = nused < nd and rng.random() < 0.4
    length = None
    if allow_list and rng.random() < 0.6:
        length = rng.randint(0 if empty and rng.random() < 0.15 else 1, 4)
    idx = []
    # positions of the used dimensions (contiguous, split by the ellipsis)
    split = rng.randint(0, nused) if ell else nused
    dims = list(range(split)) + list(range(nd - (nused - split), nd))
    desc_lists = 0
    for d in dims:
        n = shape[d]
        kind = rng.choice(["int", "slice", "slice", "list", "list", "full"])
        if kind == "list" and length is None:
            kind = "slice"
        if kind == "int":
            idx.append(rng.randint(-n, n - 1))
        elif kind == "slice":
            idx.append(rand_slice(rng, n))
        elif kind == "full":
            idx.append(slice(None))
        else:
            desc_lists += 1
            what = rng.random()
            if what < 0.3 and length is not None and 1 <= length <= n:
                b = [True] * length + [False] * (n - length)
                rng.shuffle(b)
                idx.append(b)
            elif what < 0.4 and length and length <= n:
                a = rng.randint(0, n - length)
                idx.append(range(a, a + length))
            elif dup or length > n:
                idx.append([rng.randint(-n, n - 1) for _ in range(length)])
            else:
                idx.append(rng.sample(range(n), length))
    if ell:
        idx.insert(split, Ellipsis)
    if allow_new:
        for _ in range(rng.choice([0, 0, 1, 2])):
            idx.insert(rng.randint(0, len(idx)), np.newaxis)
    idx = tuple(idx)
    if len(idx) == 1 and rng.random() < 0.5:
        idx = idx[0]
    return idx


def npindex(index):
    """What the same index means to numpy (ranges are lists, empty lists are integer lists)"""
    if isinstance(index, tuple):
        return tuple(npindex(i) for i in index)
    if isinstance(index, range):
        return list(index)
    return index


def rand_stack(rng, ndmin=1):
    nd = rng.randint(ndmin, 4)
    shape = tuple(rng.choice([1, 2, 3, 4, 5, 6]) for _ in range(nd))
    arr = np.arange(int(np.prod(shape)), dtype=np.int64).reshape(shape) + 1
    axis = rng.randint(-nd, nd - 1)
    return shape, arr, axis


def case_getitem(c, rng):
    shape, arr, axis = rand_stack(rng, 2)
    index = rand_index(rng, shape)
    try:
        expect = arr[npindex(index)]
    except IndexError:
        raise Discard()
    parts = [np.take(arr, i, axis=axis) for i in range(shape[axis])]
    asked = []

    def generator(i):
        asked.append(i)
        return parts[i]

    got = indexing.getitem(generator, list(range(shape[axis])), index, len(shape),
                           shapefull=shape, axis=axis)
    c.key(shape, axis, index)
    c.sample({"shape": shape, "axis": axis, "index": repr(index)})
    c.require(got.shape == expect.shape, "getitem.shape",
              lambda: "shape {} axis {} index {}: got shape {}, numpy {}".format(shape, axis, index, got.shape, expect.shape))
    c.require(np.array_equal(got, expect), "getitem.values",
              lambda: "shape {} axis {} index {}: got {}, numpy {}".format(shape, axis, index, got.tolist(), expect.tolist()))
    c.event("items_generated", len(asked))
    # slices and integers along the stack axis: nothing else is generated
    full = indexing.expand(index, len(shape))
    nonew = [i for i in full if i is not np.newaxis]
    sel = np.arange(shape[axis])[nonew[axis] if not isinstance(nonew[axis], range) else list(nonew[axis])]
    sel = set(np.atleast_1d(sel).tolist()) if np.size(sel) else set()
    c.require(set(asked) <= sel, "getitem.needless",
              lambda: "items {} generated, only {} needed for {} {} {}".format(asked, sel, shape, axis, index))


def case_setitem(c, rng):
    shape, arr, axis = rand_stack(rng, 2)
    index = rand_index(rng, shape, allow_new=rng.random() < 0.3, dup=False, empty=False)
    # duplicates in a list make the outcome of a non-"set" update ambiguous in numpy
    full = indexing.expand(index, len(shape))
    for l, n in zip([i for i in full if i is not np.newaxis], shape):
        if isinstance(l, list) and not all(isinstance(x, bool) for x in l):
            if len({x % n for x in l}) != len(l):
                raise Discard()
    ref = arr.astype(float)
    work = ref.copy()
    try:
        sub = ref[npindex(index)]
    except IndexError:
        raise Discard()
    method = rng.choice(["set", "add", "sub", "mul", "div"])
    if rng.random() < 0.3:
        value = rng.randint(1, 9)
    else:
        value = c.np.randint(1, 50, size=sub.shape).astype(float)
    if np.size(value) == 0:
        raise Discard()
    ind = npindex(index)
    if method == "set":
        ref[ind] = value
    elif method == "add":
        ref[ind] += value
    elif method == "sub":
        ref[ind] -= value
    elif method == "mul":
        ref[ind] *= value
    else:
        ref[ind] /= value
    j = axis % len(shape)

    def selector(i):
        return work[(slice(None),) * j + (i,)]

    c.key(shape, axis, index, method, np.ndim(value))
    indexing.setitem(selector, list(range(shape[axis])), index, len(shape), value,
                     method=method, shapefull=shape, axis=axis)
    c.event("items_set", int(np.size(sub)))
    c.require(np.array_equal(work, ref), "setitem",
              lambda: "shape {} axis {} index {} {} {}: got {}, numpy {}".format(
                  shape, axis, index, method, np.asarray(value).tolist(), work.tolist(), ref.tolist()))


def case_algebra(c, rng):
    """expand, replace, shape prediction, axes order and deferred newaxis"""
    shape, arr, axis = rand_stack(rng, 2)
    index = rand_index(rng, shape)
    nd = len(shape)
    try:
        expect = arr[npindex(index)]
    except IndexError:
        raise Discard()
    c.key(shape, index)
    full = indexing.expand(index, nd)
    c.require(np.array_equal(arr[npindex(full)], expect), "expand", lambda: "{} {} -> {}".format(shape, index, full))
    c.require(not any(i is Ellipsis for i in (full if isinstance(full, tuple) else (full,))), "expand.ellipsis", repr(full))
    if not isinstance(full, tuple):
        full = (full,)
    s = indexing.shape_afterindexing(shape, index)
    c.require(tuple(s) == expect.shape, "shape_afterindexing",
              lambda: "{} {}: {} instead of {}".format(shape, index, s, expect.shape))
    inew, ops = indexing.extract_newaxis(full)
    c.require(np.array_equal(ops(arr[npindex(inew)]), expect) and ops(arr[npindex(inew)]).shape == expect.shape,
              "extract_newaxis", lambda: "{} {}".format(shape, index))
    # full range along some axes
    axes = rng.sample(range(nd), rng.randint(1, nd))
    axes = [a - nd if rng.random() < 0.3 else a for a in axes]
    rep = indexing.replacefull(index, nd, axes)
    nonew = [i for i in rep if i is not np.newaxis]
    nonew0 = [i for i in full if i is not np.newaxis]
    for i in range(nd):
        want = slice(None) if (i in axes or i - nd in axes) else nonew0[i]
        c.require(nonew[i] == want, "replacefull", lambda: "{} {} {}: {}".format(shape, index, axes, rep))
    c.require(len(rep) == len(full), "replacefull.length", lambda: "{} -> {}".format(index, rep))
    c.event("algebra_laws", 6)


def case_nonchanging(c, rng):
    shape, arr, axis = rand_stack(rng)
    if rng.random() < 0.5:
        index = tuple(
            rng.choice([slice(None), slice(0, None), slice(None, None, 1), list(range(n)), [True] * n, slice(0, n)])
            for n in shape[: rng.randint(1, len(shape))]
        )
    else:
        index = rand_index(rng, shape)
    try:
        expect = arr[npindex(index)]
    except IndexError:
        raise Discard()
    c.key(shape, index)
    same = expect.shape == arr.shape and np.array_equal(expect, arr)
    for shp in (shape, None):
        b = indexing.nonchanging(index if isinstance(index, tuple) else (index,), shp)
        c.event("nonchanging_true" if b else "nonchanging_false")
        # "not changing" must never be claimed of an index that changes something
        c.require(same or not b, "nonchanging", lambda: "{} {} shape={}: claims {}".format(shape, index, shp, b))


GROUPS = [
    Group("getitem", case_getitem, 30000, 600000),
    Group("setitem", case_setitem, 20000, 400000),
    Group("algebra", case_algebra, 15000, 300000),
    Group("nonchanging", case_nonchanging, 8000, 160000),
]
MIN_EVENTS = {"items_generated": 1000, "items_set": 1000, "nonchanging_true": 50}
