"""Pipelines: job lists, jobs from sample/dataset/scan numbers, exported results, parameter inheritance."""
import contextlib
import copy
import glob
import io
import os
import sys
import numpy as np
import h5py
from lib.vp import Group, Discard
from checks.c24 import close
from checks.c31 import write_edf, read_edf
from spectrocrunch.pipelines import batch, parameters, fluoxasjobs, ffxasjobs

ID = "C30"
LEVEL = "exploration"
RULE = (
    "random job lists with any combination of command line options; measured maps and full-field scans of several samples and datasets, "
    "processed directly or through job lists; histories of operations on inheritance trees of parameters"
)


@contextlib.contextmanager
def command(argv):
    keep, sys.argv = sys.argv, ["prog"] + [str(x) for x in argv]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            yield out
    finally:
        sys.argv = keep


def options(rng, n):
    """command line and the 1-based numbers of the jobs it asks for (None: all)"""
    kind = rng.choice(["none", "j", "j", "a", "b", "ab", "jab", "n", "l", "nj"])
    argv, want = [], []
    some = lambda: rng.randint(1, n + 1) if rng.random() < 0.9 else rng.choice([0, -1, n + 5, -n])
    if "j" in kind:
        want = [some() for _ in range(rng.randint(1, 4))]
        argv += [rng.choice(["-j", "--jobs"])] + want
    a = b = None
    if kind in ("a", "ab", "jab"):
        a = rng.randint(1, n + 1)
    if kind in ("b", "ab", "jab"):
        b = rng.randint(1, n + 1)
    extra = []
    if a is not None:
        extra.append([rng.choice(["-a", "--ajob"]), a])
    if b is not None:
        extra.append([rng.choice(["-b", "--bjob"]), b])
    if kind in ("n", "nj"):
        extra.append([rng.choice(["-n", "--njobs"])])
    if kind == "l":
        extra.append([rng.choice(["-l", "--ljobs"])])
    rng.shuffle(extra)
    for x in extra:
        argv = argv + x if rng.random() < 0.5 else x + argv
    if a is not None or b is not None:
        lo, hi = a or 1, b or n
        if a is not None and b is None and a > n:
            return options(rng, n)
        lo, hi = min(lo, hi), max(lo, hi)
        want = want + list(range(lo, hi + 1))
    if rng.random() < 0.2:
        argv = argv + ["--log=warning"]
    what = "n" if "n" in kind and kind != "none" else "l" if kind == "l" else "run"
    if what == "run" and kind == "none":
        want = None
    return argv, what, want


def jobs(c, rng):
    n = rng.choice([1, 2, 3, 5, 12, 30])
    argv, what, want = options(rng, n)
    calls = []

    def work(*args, **kwargs):
        calls.append((args, kwargs))

    names = ["job(%d)" % i for i in range(n)]
    exp = [((i, "x%d" % i), {"k": i}) for i in range(n)]
    spec = [(names[i], work, exp[i][0], exp[i][1]) for i in range(n)]
    order = list(range(n))
    with command(argv) as out:
        with batch.context() as lst:
            how = rng.choice(["append", "extend", "insert", "mixed"])
            if how == "append":
                for s in spec:
                    lst.append(s)
            elif how == "extend":
                lst.extend(spec)
            elif how == "insert":
                order = []
                for i, s in enumerate(spec):
                    k = rng.randint(0, len(order))
                    order.insert(k, i)
                    lst.insert(k, s)
            else:
                lst.append(("wrong", work, (), {}))
                lst.extend(spec)
                if rng.random() < 0.5:
                    del lst[0]
                else:
                    lst.append(("wrong", work, (), {}))
                    lst[-1] = ("again", work, ("again",), {})
                    lst.pop()
                    lst.pop(0)
            for bad in [("x", "notcallable", (), {}), ("x", work, 3, {}), ("x", work, (), ())]:
                try:
                    lst.append(bad)
                except TypeError:
                    pass
                else:
                    c.require(False, "invalid job accepted", repr(bad[1:]))
            c.require(len(lst) == n, "number of jobs", "%d != %d" % (len(lst), n))
            c.require(not calls, "executed too early", str(argv))
        text = out.getvalue()
    names = [names[i] for i in order]
    exp = [exp[i] for i in order]
    if what == "n":
        c.require(text.strip() == str(n), "number of jobs printed", "%r != %d" % (text, n))
        c.require(not calls, "executed", str(argv))
    elif what == "l":
        lines = text.rstrip("\n").split("\n")
        ok = len(lines) == n and all(l.split(".", 1)[0].strip() == str(i) and l.split(".", 1)[1].strip() == nm for i, (l, nm) in enumerate(zip(lines, names), 1))
        c.require(ok, "list of jobs", lambda: text)
        c.require(not calls, "executed", str(argv))
    else:
        run = list(range(1, n + 1)) if want is None else [i for i in want if 1 <= i <= n]
        c.require(calls == [exp[i - 1] for i in run], "executed jobs", lambda: "%s: %s != %s of %d" % (argv, [x[0][0] + 1 for x in calls], run, n))
        c.event("jobs executed", len(run))
    c.key(what, want is None, n)
    c.sample({"argv": argv, "n": n})


# ---------------------------------------------------------------- parameter trees


class Ref:
    """independent model: parent and own keys"""

    def __init__(self, node, parent=None):
        self.node, self.parent, self.own = node, parent, {}

    def chain(self):
        x = self
        while x is not None:
            yield x
            x = x.parent

    def full(self):
        r = {}
        for x in reversed(list(self.chain())):
            r.update(x.own)
        return r


def tree(c, rng):
    keys = ["a", "b", "c", "d", 5, ("t", 1)]

    def value():
        k = rng.choice(["int", "float", "str", "list", "arr", "none", "bool"])
        return {
            "int": rng.randint(0, 3), "float": rng.choice([0.5, 1.5, 2.0]), "str": rng.choice(["", "x", "yy"]), "list": [1, rng.randint(0, 2)],
            "arr": [1, 2, "z"], "none": None, "bool": rng.random() < 0.5,
        }[k]

    same = lambda a, b: a == b and (a is None) == (b is None)
    root = parameters.Node(name="root")
    refs = [Ref(root)]
    hist = []
    names = 0

    def below(x):
        return [y for y in refs if y is not x and x in list(y.chain())]

    def kids(x):
        return [y for y in refs if y.parent is x]

    def check():
        for x in refs:
            full = x.full()
            got = x.node.todict()
            c.require(set(got) == set(full) and all(same(got[k], full[k]) for k in full), "inherited values", lambda: "%s != %s after %s" % (got, full, hist[-8:]))
            c.require(len(x.node) == len(full) and set(x.node) == set(full), "keys", lambda: "%s != %s after %s" % (list(x.node), full, hist[-8:]))
            loc = x.node.todict(full=False)
            for k in keys:
                c.require((k in x.node) == (k in full), "in", lambda: "%r %s" % (k, hist[-8:]))
                c.require(same(x.node.get(k, "missing"), full.get(k, "missing")), "get", lambda: "%r %s" % (k, hist[-8:]))
                if x.node.islocalkey(k):
                    c.require(k in loc, "local key", lambda: "%r %s" % (k, hist[-8:]))
                # A value which is not inherited is kept by the node itself
                if k in full and (x.parent is None or k not in x.parent.full() or not same(x.parent.full()[k], full[k])):
                    c.require(x.node.islocalkey(k), "own value not local", lambda: "%r %s" % (k, hist[-8:]))
                inh = x.parent is not None and k in x.parent.full()
                c.require(bool(x.node.isinheritedkey(k)) == inh, "is inherited", lambda: "%r %s" % (k, hist[-8:]))
            try:
                x.node["nokey"]
            except KeyError:
                pass
            else:
                c.require(False, "missing key", str(hist[-8:]))
            c.require(x.node.parent is (x.parent.node if x.parent else None), "parent", lambda: str(hist[-8:]))
            c.require({id(y) for y in x.node.children} == {id(y.node) for y in kids(x)} and len(x.node.children) == len(kids(x)), "children", lambda: str(hist[-8:]))
            c.require({id(y) for y in x.node.iter_down()} == {id(y.node) for y in below(x)} | {id(x.node)}, "descendants", lambda: str(hist[-8:]))
            c.require([id(y) for y in x.node.iter_up()] == [id(y.node) for y in x.chain()], "ancestors", lambda: str(hist[-8:]))

    def sync(x):
        """a value equal to the inherited one is not necessarily stored"""
        for k in keys:
            if not x.node.islocalkey(k):
                x.own.pop(k, None)

    def setkey(x, k, v):
        cur = x.full()
        # assigning what it already has is not a new value
        if not (k in cur and same(cur[k], v)):
            x.own[k] = v
        elif x.node.islocalkey(k):
            x.own[k] = v

    for _ in range(rng.randint(5, 40)):
        x = rng.choice(refs)
        op = rng.choice(["branch", "set", "set", "set", "update", "del", "dellocal", "recursive", "before", "after", "remove", "fromdict", "parent", "clear"])
        k = rng.choice(keys)
        hist.append((op, x.node.name, k))
        if op == "branch":
            if len(refs) > 12:
                continue
            names += 1
            refs.append(Ref(x.node.branch(name="n%d" % names), x))
        elif op == "set":
            v = value()
            x.node[k] = v
            setkey(x, k, v)
        elif op in ("update", "recursive", "fromdict"):
            d = {kk: value() for kk in rng.sample(keys, rng.randint(0, 4))}
            hist[-1] = (op, x.node.name, d)
            if op == "update":
                x.node.update(d)
                for kk, v in d.items():
                    setkey(x, kk, v)
            elif op == "recursive":
                x.node.update_recursive(d)
                for kk, v in d.items():
                    setkey(x, kk, v)
                    for y in below(x):
                        y.own.pop(kk, None)
            else:
                how = rng.choice(["plain", "keep", "recursive"])
                hist[-1] = (op, how, x.node.name, d)
                if how == "plain":
                    x.node.fromdict(d)
                elif how == "keep":
                    x.node.fromdict(d, override=False)
                    inherited = x.parent.full() if x.parent else {}
                    d = {kk: v for kk, v in d.items() if kk not in inherited}
                else:
                    x.node.fromdict(d, recursive=True)
                for kk, v in d.items():
                    setkey(x, kk, v)
                    if how == "recursive":
                        for y in below(x):
                            y.own.pop(kk, None)
        elif op == "del":
            if k not in x.node:
                continue
            del x.node[k]
            for y in [x] + below(x):
                y.own.pop(k, None)
        elif op == "dellocal":
            x.node.delete_local(k)
            x.own.pop(k, None)
        elif op == "clear":
            if rng.random() < 0.7:
                continue
            for kk in list(x.own):
                x.node.delete_recursive(kk)
                for y in [x] + below(x):
                    y.own.pop(kk, None)
        elif op == "before":
            names += 1
            new, _ = x.node.insert_before(name="n%d" % names)
            y = Ref(new, x.parent)
            x.parent = y
            refs.append(y)
        elif op == "after":
            names += 1
            new, _ = x.node.insert_after(name="n%d" % names)
            y = Ref(new, x)
            for z in kids(x):
                z.parent = y
            refs.append(y)
        elif op == "remove":
            if x.parent is None or len(refs) < 3:
                continue
            x.node.remove(single=True)
            for z in kids(x):
                z.parent = x.parent
            x.parent = None
            x.node["a"] = x.own.get("a", 1)
            x.own["a"] = x.own.get("a", 1)
        elif op == "parent":
            y = rng.choice(refs)
            if y is x or y is x.parent or x in list(y.chain()):
                continue
            x.node.parent = y.node
            x.parent = y
        c.event("tree operations")
        check()
    # Changes
    x = rng.choice(refs)
    top = list(x.chain())[-1]
    top.node.reset_state(recursive=True)
    every = [top] + below(top)
    c.require(not any(y.node.changed for y in every), "changed after reset", str(hist[-5:]))
    y = rng.choice(every)
    k = rng.choice(keys)
    v = value()
    before = y.full()
    y.node[k] = v
    new = not (k in before and same(before[k], v))
    touched = [y] + below(y) if new else []
    for z in every:
        c.require(bool(z.node.changed) == (z in touched), "changed", lambda: "%s %r=%r in %s" % (z.node.name, k, v, y.node.name))
    for z in every:
        c.require(isinstance(z.node.tree(), str) and isinstance(repr(z.node), str), "text", "")
    ann = y.node.todict(annotated=True)
    c.require({a.original: bool(a.inherited) for a in ann} == {kk: not y.node.islocalkey(kk) for kk in y.node}, "annotated keys", lambda: str(list(ann)))
    c.key(len(refs), len(hist))
    c.sample({"history": [str(h) for h in hist[:6]], "nodes": len(refs)})


# ---------------------------------------------------------------- jobs


class Maps:
    """measured maps of one dataset"""

    def __init__(self, c, rng, root, sample, dataset, kind):
        self.sample, self.dataset, self.kind = sample, dataset, kind
        self.radix = "_".join(x for x in (sample, dataset) if x)
        self.base = os.path.join(root, sample, self.radix, "zap")
        self.nrow, self.ncol = rng.randint(1, 3), rng.randint(2, 4)
        self.dets = list(range(rng.choice([1, 2])))
        self.scans = {}

    def scan(self, c, rng, nr=None, numbers=(), energies=()):
        """write the maps with these numbers"""
        r = c.np
        if nr is None:
            path, name = self.base, self.radix
        else:
            name = "%s_fluoXAS_%d" % (self.radix, nr)
            path = os.path.join(self.base, name)
        os.makedirs(path, exist_ok=True)
        for num, e in zip(numbers, energies):
            shape = (self.nrow, self.ncol)
            ctrs = {"arr_iodet": r.uniform(1000, 2000, shape), "arr_idet": r.uniform(100, 200, shape)}
            for d in self.dets:
                for l in range(self.nrow):
                    write_edf(os.path.join(path, "%s_xia%02d_%04d_0000_%04d.edf" % (name, d, num, l)), r.randint(0, 100, (self.ncol, 6)).astype("int32"))
                ctrs["xmap_x1c_%02d" % d] = r.uniform(0, 100, shape)
                ctrs["xmap_icr_%02d" % d] = r.uniform(1000, 2000, shape)
            for l in range(self.nrow):
                st = np.ones((self.ncol, len(self.dets), 6), "int32")
                for i, d in enumerate(self.dets):
                    st[:, i, 0], st[:, i, 2], st[:, i, 3] = d, 1000, 900
                write_edf(os.path.join(path, "%s_xiast_%04d_0000_%04d.edf" % (name, num, l)), st.reshape(self.ncol, -1), [("xdata", 3), ("xdet", " ".join(map(str, self.dets)))])
            for n, v in ctrs.items():
                write_edf(os.path.join(path, "%s_%s_%04d_0000.edf" % (name, n, num)), v, [("DCM_Energy", repr(float(e))), ("time", "0.1")])
            self.scans[(nr, num)] = (e, ctrs)


def results(c, filename):
    """{entry: {signal path: data}} of all XRF results in a file"""
    ret = {}
    if not os.path.exists(filename):
        return ret
    with h5py.File(filename, "r") as f:
        for entry in f:
            for proc in f[entry]:
                if not proc.startswith("pymca"):
                    continue
                res = f[entry][proc]["results"]
                ret[(entry, proc)] = {
                    g + "/" + s: res[g][s][()]
                    for g in res
                    if g == "counters" or g.startswith("detector")
                    for s in res[g]
                    if isinstance(res[g][s], h5py.Dataset) and res[g][s].ndim == 3
                }
    return ret


def xrfjobs(c, rng):
    root = os.path.join(c.dir, "proposal")
    resultsdir = os.path.join(c.dir, "results")
    os.makedirs(resultsdir)
    queue = []
    stackdim = rng.choice([0, 0, 2])
    exporting = rng.random() < 0.6
    add = rng.random() < 0.5
    params = {
        "proposaldir": root, "resultsdir": resultsdir, "common": {"instrument": rng.choice(["sxm", "id21"]), "stackdim": stackdim},
        "pymca": {"adddetectors": add, "counters": []}, "edfexport": exporting,
    }
    keep = copy.deepcopy(params)
    njobs = rng.randint(1, 3)
    expect = []
    used = set()
    energy = lambda n: [float("%.4f" % x) for x in c.np.permutation(np.linspace(7.0, 7.0 + 0.5, n) + c.np.uniform(0, 0.02, n))]
    for i in range(njobs):
        sample, dataset = rng.choice(["sA", "sB"]), rng.choice(["d1", "d2", ""])
        kind = rng.choice(["fluoxas", "multi", "single", "manual"])
        if (sample, dataset) in used:
            continue
        used.add((sample, dataset))
        m = Maps(c, rng, root, sample, dataset, kind)
        if kind == "fluoxas":
            scans = rng.sample(range(1, 8), rng.randint(1, 3))
            maps = [sorted(rng.sample(range(1, 30), rng.randint(1, 2))) for _ in scans]
            allnum = [(s, n) for s, lst in zip(scans, maps) for n in lst]
            es = energy(len(allnum))
            for s, lst in zip(scans, maps):
                m.scan(c, rng, s, lst, [es[allnum.index((s, n))] for n in lst])
            # not asked for
            m.scan(c, rng, 9, [1], [8.0])
            args = (sample, dataset, scans, maps, [])
            func = fluoxasjobs.fluoxas
        elif kind in ("multi", "single"):
            nums = rng.sample(range(1, 20), 1 if kind == "single" else rng.randint(1, 3))
            es = energy(len(nums))
            m.scan(c, rng, None, nums, es)
            m.scan(c, rng, None, [25], [8.0])
            allnum = [(None, n) for n in nums]
            args = (sample, dataset, nums if kind == "multi" else nums[0], [])
            func = getattr(fluoxasjobs, kind)
        else:
            nums = rng.sample(range(1, 20), rng.randint(1, 3))
            es = energy(len(nums))
            m.scan(c, rng, 3, nums, es)
            m.scan(c, rng, 3, [25], [8.0])
            allnum = [(3, n) for n in nums]
            name = "%s_fluoXAS_3" % m.radix
            args = ([os.path.join(m.base, name)], [name], [nums], [])
            func = fluoxasjobs.manualselection
        keepargs = copy.deepcopy(args)
        expect.append((m, kind, allnum, func, args, keepargs))
    how = rng.choice(["direct", "list", "context"])
    which = list(range(len(expect)))

    def outname(m, kind):
        if kind == "manual":
            return "%s_fluoXAS_3" % m.radix
        return m.sample

    if how == "direct":
        for m, kind, allnum, func, args, _ in expect:
            func(*args, **params)
    elif how == "list":
        lst = batch.Jobs() if rng.random() < 0.5 else []
        for m, kind, allnum, func, args, _ in expect:
            func(*args, jobs=lst, **params)
        c.require(len(lst) == len(expect), "queued jobs", str(len(lst)))
        c.require(not os.listdir(resultsdir), "executed too early", "")
        rng.shuffle(which)
        which = which[: rng.randint(1, len(which))]
        for k in which:
            j = lst[k]
            if isinstance(j, tuple):
                j[1](*j[2], **j[3])
            else:
                j()
    else:
        which = sorted(rng.sample(which, rng.randint(1, len(which))))
        with command(["-j"] + [k + 1 for k in which]):
            with batch.context() as lst:
                for m, kind, allnum, func, args, _ in expect:
                    func(*args, jobs=lst, **params)
                c.require(not os.listdir(resultsdir), "executed too early", "")
    c.require(params == keep, "parameters modified", lambda: "%s != %s" % (params, keep))
    c.event("xrf jobs", len(which))
    info = "how=%s stackdim=%d add=%s jobs=%s" % (how, stackdim, add, [(m.sample, m.dataset, kind, allnum) for m, kind, allnum, _, _, _ in expect])
    files = {}
    edfs = {os.path.abspath(f) for f in glob.glob(os.path.join(resultsdir, "edfresults", "**", "*.edf"), recursive=True)}
    for k, (m, kind, allnum, func, args, keepargs) in enumerate(expect):
        c.require(args == keepargs, "arguments modified", lambda: "%s != %s" % (args, keepargs))
        fn = os.path.join(resultsdir, outname(m, kind) + ".h5")
        files.setdefault(fn, []).append(k)
    for fn, ks in files.items():
        got = results(c, fn)
        todo = [k for k in ks if k in which]
        c.require(len(got) == len(todo), "number of results", lambda: "%s: %s for %d jobs; %s" % (fn, sorted(got), len(todo), info))
        for k in todo:
            m, kind, allnum, _, _, _ = expect[k]
            mine = [key for key in got if key[0].startswith(outname(m, kind) if kind == "manual" else m.radix + ".")]
            c.require(len(mine) == 1, "entry name", lambda: "%s %s" % (sorted(got), info))
            data = got[mine[0]]
            order = sorted(range(len(allnum)), key=lambda i: m.scans[allnum[i]][0])
            exp = {}
            for n in m.scans[allnum[0]][1]:
                exp[n] = np.array([m.scans[allnum[i]][1][n] for i in order])
            res = {"counters/" + n: v for n, v in exp.items() if n.startswith("arr")}
            if add and len(m.dets) > 1:
                for n in ("xmap_x1c", "xmap_icr"):
                    res["detectorS1/" + n] = sum(exp["%s_%02d" % (n, d)] for d in m.dets)
            else:
                for n in ("xmap_x1c", "xmap_icr"):
                    for d in m.dets:
                        res["detector%02d/%s" % (d, n)] = exp["%s_%02d" % (n, d)]
            c.require(set(data) == set(res), "result signals", lambda: "%s != %s %s" % (sorted(data), sorted(res), info))
            for n, v in res.items():
                close(c, data[n], np.moveaxis(v, 0, stackdim), "result values", rtol=1e-6, info=n + " " + info)
            c.event("result maps", len(res))
            sub_ = {f for f in edfs if os.sep + mine[0][0] + os.sep in f}
            edfs -= sub_
            if exporting and kind != "fluoxas":
                want = {}
                for n, v in res.items():
                    if not n.startswith("detector"):
                        continue
                    for i, kk in enumerate(order):
                        want[(n, i)] = (m.scans[allnum[kk]][0], v[i])
                c.require(len(sub_) == len(want), "number of exported images", lambda: "%s for %d images; %s" % (sorted(sub_), len(want), info))
                left = {f: read_edf(f) for f in sub_}
                for (n, i), (e, img) in want.items():
                    det, sig = n[len("detector"):].split("/")
                    hit = [f for f, x in left.items() if x[0].shape == img.shape and np.allclose(x[0], img, rtol=1e-5)]
                    c.require(len(hit) == 1, "exported image", lambda: "%s energy %s: %s; %s" % (n, e, hit, info))
                    b = os.path.basename(hit[0])
                    c.require(sig in b and ("xia" + det) in b, "exported file name", b)
                    if len(order) > 1:
                        num = b[b.index(sig) + len(sig):].strip("_")
                        num = num.split("keV")[0].split(" ")[0]
                        try:
                            ok = abs(float(num) - e) < 1e-4
                        except ValueError:
                            ok = False
                        c.require(ok, "energy of exported file", lambda: "%s for %s" % (b, e))
                    del left[hit[0]]
                c.event("exported images", len(want))
            else:
                c.require(not sub_, "images exported", lambda: "%s %s" % (sorted(sub_), info))
    c.require(not edfs, "images exported elsewhere", lambda: "%s %s" % (sorted(edfs), info))
    c.key(how, stackdim, add, len(expect), exporting)
    c.sample(info)


def ffjobs(c, rng):
    root = os.path.join(c.dir, "proposal")
    resultsdir = os.path.join(c.dir, "results")
    os.makedirs(resultsdir)
    r = c.np
    params = {
        "proposaldir": root, "resultsdir": resultsdir, "instrument": "id21", "normalize": True,
        "normalizeonload": True, "flatbeforeafter": rng.random() < 0.5, "rebin": (1, 1), "roiraw": None, "alignmethod": None, "stackdim": 0,
    }
    expect = []
    used = set()
    for i in range(rng.randint(1, 3)):
        sample, dataset = rng.choice(["sA", "sB"]), rng.choice(["d1", "d2", ""])
        if (sample, dataset) in used:
            continue
        used.add((sample, dataset))
        rad = "_".join(x for x in (sample, dataset) if x)
        nrad = rng.choice([1, 1, 2])
        radices = ["%s_%d" % (rad, k) for k in range(nrad)]
        e = [float("%.4f" % x) for x in np.linspace(7, 7.1, 4) + r.uniform(0, 0.02, 4)]
        shape = (rng.randint(3, 5), rng.randint(3, 5))
        mu = r.uniform(0.1, 2, (4,) + shape)
        files = []
        for k in range(4):
            rd = radices[k % nrad]
            files.append((rd, k, e[k], mu[k]))
        expect.append((sample, dataset, rad, radices, e, mu, files))
    from spectrocrunch.instruments.configuration import getinstrument

    sub_ = getinstrument(instrument=params["instrument"]).ffsubdir(type="static")
    for sample, dataset, rad, radices, e, mu, files in expect:
        for rd, k, en, m in files:
            p = os.path.join(root, sample, rad, sub_, rd)
            os.makedirs(p, exist_ok=True)
            h = [("exposure_time", "1"), ("nb_frames", "1"), ("energy", repr(en))]
            write_edf(os.path.join(p, "%s_dark_%04d.edf" % (rd, k)), np.full(m.shape, 10.0), h)
            beam = r.uniform(500, 1000, m.shape)
            write_edf(os.path.join(p, "%s_data_%04d.edf" % (rd, k)), beam * np.exp(-m) + 10, h)
            for kk in range(2):
                write_edf(os.path.join(p, "%s_ref_%04d_%d.edf" % (rd, k, kk)), beam + 10, h)
    keep = copy.deepcopy(params)
    how = rng.choice(["direct", "list", "context"])
    which = list(range(len(expect)))
    call = lambda x, **kw: ffxasjobs.staticscan(x[0], x[1], x[3] if len(x[3]) > 1 or rng.random() < 0.5 else x[3][0], **kw, **params)
    if how == "direct":
        for x in expect:
            call(x)
    elif how == "list":
        lst = batch.Jobs() if rng.random() < 0.5 else []
        for x in expect:
            call(x, jobs=lst)
        c.require(len(lst) == len(expect) and not os.listdir(resultsdir), "queued jobs", str(len(lst)))
        rng.shuffle(which)
        which = which[: rng.randint(1, len(which))]
        for k in which:
            j = lst[k]
            if isinstance(j, tuple):
                j[1](*j[2], **j[3])
            else:
                j()
    else:
        which = sorted(rng.sample(which, rng.randint(1, len(which))))
        with command(["-j"] + [k + 1 for k in which]):
            with batch.context() as lst:
                for x in expect:
                    call(x, jobs=lst)
    c.require(params == keep, "parameters modified", lambda: "%s != %s" % (params, keep))
    c.event("full-field jobs", len(which))
    n = {}
    for k in which:
        n[expect[k][0]] = n.get(expect[k][0], 0) + 1
    for sample in {x[0] for x in expect}:
        fn = os.path.join(resultsdir, sample + ".h5")
        c.require(os.path.exists(fn) == (sample in n), "result file", "%s %s" % (fn, how))
        if sample not in n:
            continue
        with h5py.File(fn, "r") as f:
            c.require(len(f) == n[sample], "number of results", lambda: "%s for %d jobs" % (list(f), n[sample]))
            for k in which:
                s, dataset, rad, radices, e, mu, files = expect[k]
                if s != sample:
                    continue
                order = np.argsort(e)
                found = []
                f.visititems(lambda name, obj: found.append((name, obj[()])) if isinstance(obj, h5py.Dataset) and obj.ndim == 3 and obj.shape == mu.shape else None)
                hit = [name for name, v in found if np.allclose(v, mu[order], rtol=1e-4, atol=1e-4) and rad in name.split("/")[0]]
                c.require(len(hit) >= 1, "absorbance", lambda: "%s not in %s" % (rad, [x[0] for x in found]))
                c.event("absorbance stacks")
    c.key(how, len(expect))


GROUPS = [
    Group("jobs", jobs, 250, 10000, minimum=200),
    Group("tree", tree, 250, 10000, minimum=200),
    Group("xrfjobs", xrfjobs, 50, 1200, minimum=40),
    Group("ffjobs", ffjobs, 30, 800, minimum=20),
]
