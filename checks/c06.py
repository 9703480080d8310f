"""Running the same work twice does it once; concurrent tasks do not disturb each other."""
import os
import signal
import random
import h5py
import numpy as np
from lib.vp import Group, Discard
from lib import h5snap
from lib.nx import make_source, task, read_result, toy, toy_complete
from spectrocrunch.io import nxfs, h5fs
from spectrocrunch.process import utils

ID = "C06"
LEVEL = "exploration"
RULE = (
    "random chains of 1-3 shipped tasks, executed twice with new task objects (dependency given as task, path or "
    "location, shuffled parameter order): second time must not touch the file and gives the same outputs, changed "
    "parameters give a new output and leave the others alone; deterministic interleavings of tasks on one file "
    "(each step of one task can run another task with the same or other parameters); processes that increment a "
    "counter in the same HDF5 file through h5FileIO; non-trivial: always, except chains that create nothing"
)

STEPS = {
    "crop": lambda r: {"method": "crop", "roi": [(0, 2), (r.randint(0, 1), r.randint(4, 5)), (1, 4)][: r.randint(2, 3)], "reference": "Fe-K"},
    "replace": lambda r: {"method": "replace", "old": 2.0, "new": r.choice([-1.0, 0.5])},
    "minlog": lambda r: {"method": "minlog"},
    "expression": lambda r: {"method": "expression", "expression": r.choice(["{}*2", "{}/{arr_iodet}", "{}+1"])},
    "resample": lambda r: {"method": "resample", "encoders": {"y": {"counter": "arr_samy", "resolution": 2}}, "crop": r.random() < 0.5},
    "align": lambda r: {"method": "align", "alignmethod": "max", "reference": "Fe-K", "refimageindex": 0},
}


def shuffled(d, rng):
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


def run_chain(src, steps, rng, how=None):
    """New task objects for each step"""
    dep = src
    tasks = []
    for p in steps:
        h = how or rng.choice(["task", "path", "location"])
        if dep is src:
            d = utils.nxpathtotask(src)
        elif h == "task":
            d = tasks[-1]
        elif h == "path":
            d = tasks[-1].output
        else:
            d = tasks[-1].output.location
        t = utils.create_task(dependencies=d, **shuffled(p, rng))
        t.run()
        tasks.append(t)
        dep = None
    return tasks


def idempotent(c, rng):
    filename = os.path.join(c.dir, "t.h5")
    groups = {"detector00": ["Fe-K", "Si-K"], "counters": ["arr_iodet", "arr_samy"]}

    def data(group, sig, shape):
        if sig == "arr_samy":
            y = np.arange(shape[1])[None, :, None] * 4.0 + 2
            return np.broadcast_to(y, shape) + c.np.rand(*shape) * 0.01
        return c.np.randint(1, 50, shape) / 4.0

    src, _, _ = make_source(filename, c.np, shape=(2, 6, 5), groups=groups, data=data)
    names = [rng.choice(sorted(STEPS)) for _ in range(rng.randint(1, 3))]
    steps = []
    for n in names:
        p = STEPS[n](rng)
        if n not in ("align", "resample"):
            p["sliced"] = rng.random() < 0.5
        p["default"] = rng.choice(["Fe-K", None])
        if rng.random() < 0.3:
            p["name"] = "custom"
        steps.append(p)
    # resampling or minlog of the counters changes what later steps need
    tasks = run_chain(src, steps, rng)
    if not all(t.done for t in tasks):
        raise Discard
    ref = h5snap.snapshot(filename)
    outs = [t.output.location for t in tasks]
    c.require(len(set(outs)) == len(outs), "idem:outputs_distinct", lambda: (steps, outs))
    for t in tasks:
        c.require(t.output.valid_checksum(), "idem:checksum", lambda: (steps, t.output))
    mtime = os.stat(filename).st_mtime_ns
    for _ in range(2):
        again = run_chain(src, steps, rng)
        c.require([t.output.location for t in again] == outs, "idem:output", lambda: (steps, outs, [t.output.location for t in again]))
        c.require(all(t.done for t in again), "idem:done", lambda: steps)
        now = h5snap.snapshot(filename)
        c.require(now == ref, "idem:modified", lambda: (steps, h5snap.diff(ref, now)))
        c.event("reruns", len(steps))
    # same object again
    for t in tasks:
        t.run()
    now = h5snap.snapshot(filename)
    c.require(now == ref, "idem:same_object", lambda: (steps, h5snap.diff(ref, now)))
    # other parameters
    old = {o: h5snap.snapshot(filename, nxfs.factory(o).path) for o in outs}
    k = rng.randrange(len(steps))
    other = [dict(p) for p in steps]
    changed = dict(other[k])
    while True:
        m = rng.choice(["default", "name"] + (["sliced"] if "sliced" in changed else []))
        changed[m] = {"default": {"Fe-K": None, None: "Fe-K"}[changed["default"]], "name": changed.get("name", changed["method"]) + "b",
                      "sliced": not changed.get("sliced", True)}[m]
        break
    other[k] = changed
    new = run_chain(src, other, rng)
    locs = [t.output.location for t in new]
    c.require(locs[:k] == outs[:k], "idem:prefix_reused", lambda: (steps, other, locs))
    c.require(not set(locs[k:]) & set(outs[k:]), "idem:other_parameters_reused", lambda: (steps, other, outs, locs))
    for o in outs:
        p = nxfs.factory(o)
        now = h5snap.snapshot(filename, p.path)
        c.require(now == old[o], "idem:old_outputs_changed", lambda: (steps, other, o, h5snap.diff(old[o], now)))
    # the originals are still recognised
    again = run_chain(src, steps, rng)
    c.require([t.output.location for t in again] == outs, "idem:found_between_others", lambda: (steps, other))
    c.event("chain_" + "_".join(names[:1]))
    c.key(repr(steps), k)


def interleave(c, rng):
    """Task B runs at a step of task A (etc.)"""
    filename = os.path.join(c.dir, "t.h5")
    entry = nxfs.Path("/", h5file=filename).nxroot().new_nxentry()
    ntask = rng.randint(2, 4)
    specs = []
    for _ in range(ntask):
        specs.append((rng.choice(["job", "job", "other"]), rng.randint(1, 2), rng.randint(1, 3)))
    if rng.random() < 0.4:
        specs[1] = specs[0]
    log = []
    tasks = []

    def make(i):
        name, value, n = specs[i]
        t = toy(name, value, n, outputparent=entry)
        tasks.append((t, specs[i]))
        return t

    pending = list(range(1, ntask))

    def hookfor(i):
        steps = [("begin", 0)] + [(w, k) for k in range(specs[i][2]) for w in ("before", "after")] + [("end", specs[i][2])]
        at = rng.choice(steps)

        def hook(step):
            log.append((i, step))
            while step == at and pending:
                j = pending.pop(0)
                t = make(j)
                t.hook = hookfor(j)
                t.run()
                if rng.random() < 0.5:
                    break

        return hook

    t = make(0)
    t.hook = hookfor(0)
    t.run()
    while pending:
        j = pending.pop(0)
        t = make(j)
        t.hook = hookfor(j)
        t.run()
    distinct = set(specs)
    procs = [p.name for p in entry.iter_is_nxclass("NXprocess")]
    c.require(len(procs) == len(distinct), "interleave:exactly_once", lambda: (specs, log, procs))
    c.require(all(p.split(".")[0] in ("job", "other") and "." in p for p in procs), "interleave:names", lambda: procs)
    for t, (name, value, n) in tasks:
        c.require(t.done and toy_complete(t.output, value, n), "interleave:complete", lambda: (specs, log, t.output))
        c.require(t.output.name.startswith(name + "."), "interleave:name", lambda: (specs, t.output))
    outs = {}
    for t, spec in tasks:
        outs.setdefault(spec, set()).add(t.output.location)
    c.require(all(len(v) == 1 for v in outs.values()), "interleave:same_output", lambda: outs)
    c.require(len(set.union(*outs.values())) == len(distinct), "interleave:distinct_outputs", lambda: outs)
    # temporary output of nobody left behind
    with h5py.File(filename, "r") as f:
        names = set(f[entry.path])
    c.require({x for x in names if "NXprocess" == f_class(filename, entry.path + "/" + x)} == set(procs), "interleave:leftover", lambda: names)
    c.event("interleaved_steps", len(log))
    if len(distinct) < len(specs):
        c.event("duplicate_work")
    c.key(repr(specs), repr(log))


def f_class(filename, path):
    with h5py.File(filename, "r") as f:
        v = f[path].attrs.get("NX_class")
        return v.decode() if isinstance(v, bytes) else v


def forks(n, func, timeout):
    """run func(i) in n processes; list of exit codes"""
    pids = []
    for i in range(n):
        pid = os.fork()
        if pid == 0:
            code = 13
            try:
                signal.alarm(timeout)
                code = func(i) or 0
            except BaseException:
                import traceback

                traceback.print_exc()
            finally:
                os._exit(code)
        pids.append(pid)
    return [os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) for pid in pids]


def locking(c, rng):
    """Exclusive access of HDF5 writers (with retries)"""
    filename = os.path.join(c.dir, "t.h5")
    nproc = rng.randint(2, 4)
    n = rng.randint(4, 10)
    with h5py.File(filename, "w") as f:
        f["n"] = 0
    seeds = [rng.random() for _ in range(nproc)]
    modes = [rng.choice(["a", "r+"]) for _ in range(nproc)]
    readbetween = rng.random() < 0.5

    def work(i):
        r = random.Random(seeds[i])
        import time

        for k in range(n):
            if readbetween:
                with h5fs.h5FileIO(filename, retries=2000, backoff_factor=0.002, mode=modes[i]) as f:
                    pass
            with h5fs.h5FileIO(filename, retries=4000, backoff_factor=0.002, mode=modes[i]) as f:
                v = int(f["n"][()])
                f["p{}_{}".format(i, k)] = v
                time.sleep(r.random() * 0.003)
                f["n"][()] = v + 1

    codes = forks(nproc, work, 60)
    c.require(codes == [0] * nproc, "locking:process_failed", lambda: (nproc, n, codes))
    with h5py.File(filename, "r") as f:
        v = int(f["n"][()])
        order = sorted(int(f[k][()]) for k in f if k != "n")
    c.require(v == nproc * n, "locking:lost_update", lambda: (nproc, n, v))
    c.require(order == list(range(nproc * n)), "locking:history", lambda: order)
    c.event("locked_updates", v)
    c.key(nproc, n, repr(seeds))


def locked(c, rng):
    """A writer that cannot get access says so, a file in use is never damaged"""
    filename = os.path.join(c.dir, "t.h5")
    with h5py.File(filename, "w") as f:
        f["n"] = 5
    r, w = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(60)
            with h5fs.h5FileIO(filename, mode="a") as f:
                f["inuse"] = 1
                os.write(w, b"x")
                os.read(r2, 1)
                f["later"] = 2
        finally:
            os._exit(0)
    os.read(r, 1)
    mode = rng.choice(["a", "r+", "x"])
    path = rng.choice(["io", "path"])
    raised = None
    try:
        if path == "io":
            with h5fs.h5FileIO(filename, retries=3, backoff_factor=0.01, mode=mode) as f:
                pass
        else:
            with nxfs.Path("/", h5file=filename, mode=mode, retries=3, backoff_factor=0.01).open():
                pass
    except Exception as e:
        raised = e
    os.write(w2, b"x")
    os.waitpid(pid, 0)
    for fd in (r, w, r2, w2):
        os.close(fd)
    c.require(isinstance(raised, (h5fs.LockedError, OSError)), "locked:no_error", lambda: (mode, path, raised))
    if mode in ("a", "r+"):
        c.require(isinstance(raised, h5fs.LockedError), "locked:type", lambda: (mode, path, repr(raised)))
    with h5py.File(filename, "r") as f:
        got = {k: int(f[k][()]) for k in f}
    c.require(got == {"n": 5, "inuse": 1, "later": 2}, "locked:damaged", lambda: (mode, got))
    c.event("refused_" + mode)
    c.key(mode, path, c.seedstr)


GROUPS = [
    Group("idempotent", idempotent, 32, 400, timeout=180),
    Group("interleave", interleave, 40, 600, timeout=120),
    Group("locking", locking, 12, 150, timeout=120),
    Group("locked", locked, 12, 100, timeout=60),
]
MIN_EVENTS = {"reruns": 20, "interleaved_steps": 100, "locked_updates": 100, "duplicate_work": 4}
