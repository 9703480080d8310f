"""A task's output appears completely or not at all, whatever interrupts the task."""
import gc
import logging
import os
import sys
import signal
import h5py
import numpy as np
from lib.vp import Group, Discard
from lib import h5snap
from lib.nx import make_source, task, read_result, toy, toy_complete, Toy
from spectrocrunch.io import nxfs, fs
from spectrocrunch.process import utils

ID = "C05"
LEVEL = "fault_enumeration"
RULE = (
    "every step of a task (before, between and after each write) x kind of interruption (exception, "
    "MemoryError, KeyboardInterrupt, SystemExit, SIGINT, SIGTERM, SIGHUP, SIGKILL of the process), "
    "for tasks written against the task API and for the shipped crop/replace/minlog/expression/"
    "resample/align tasks, where the k-th HDF5 write or creation fails; after each interruption the "
    "file is re-read independently and the task is run again; non-trivial: all"
)

KINDS = ["exception", "keyboard", "memory", "exit", "sigint", "sigterm", "sighup", "oserror"]


class Injected(Exception):
    pass


def interrupt(kind):
    if kind == "exception":
        raise Injected("injected")
    if kind == "keyboard":
        raise KeyboardInterrupt
    if kind == "memory":
        raise MemoryError("injected")
    if kind == "oserror":
        raise OSError(28, "injected")
    if kind == "exit":
        raise SystemExit(3)
    os.kill(os.getpid(), getattr(signal, kind.upper()))


def strip(snap):
    """leave out what only says that the file was touched"""
    return {k: v for k, v in snap.items() if k != "."}


def others(snap, *prefixes):
    """everything below other processes"""
    return {k: v for k, v in snap.items() if not any(k == p or k.startswith(p + "/") for p in prefixes)}


def toytask(c, rng):
    """interrupt a task at each of its steps"""
    i = int(c.seedstr.rsplit(":", 1)[1])
    kind = KINDS[i % len(KINDS)]
    n = 1 + (i // len(KINDS)) % 3
    steps = [("begin", 0)] + [(w, k) for k in range(n) for w in ("before", "after")] + [("end", n)]
    where = steps[(i // (3 * len(KINDS))) % len(steps)]
    files = rng.random() < 0.5
    filename = os.path.join(c.dir, "t.h5")
    entry = nxfs.Path("/", h5file=filename).nxroot().new_nxentry()
    # bystanders
    first = toy("job", 100, 2, outputparent=entry)
    first.run()
    c.require(toy_complete(first.output, 100, 2), "toy:undisturbed", "first task")
    dep = first if rng.random() < 0.5 else None
    keep = h5snap.snapshot(filename, first.output.path)
    value = rng.randint(1, 50)
    hit = []

    def hook(step):
        if step == where and not hit:
            hit.append(step)
            interrupt(kind)

    kw = dict(outputparent=entry, dependencies=dep, files=files)
    t = toy("job", value, n, hook=hook, **kw)
    before = strip(h5snap.snapshot(filename))
    raised = None
    handlers = {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP)}
    try:
        t.run()
    except BaseException as e:
        raised = e
    c.require(hit, "toy:monitor", "interruption point not reached")
    c.event("interruption_" + kind)
    info = lambda: (kind, where, n, files, repr(raised))
    now = {s: signal.getsignal(s) for s in handlers}
    c.require(now == handlers, "toy:handlers", lambda: (info(), handlers, now))
    # nothing visible, nothing left
    t2 = toy("job", value, n, **kw)
    done = t2.done
    if done:
        # a signal does not have to abort the task
        c.require(kind.startswith("sig") and toy_complete(t2.output, value, n), "toy:partial_visible", info)
    c.require(keep == h5snap.snapshot(filename, first.output.path), "toy:other_output_changed", info)
    if not kind.startswith("sig") or kind == "sigint":
        c.require(not done, "toy:visible", info)
        after = strip(h5snap.snapshot(filename))
        c.require(after == before, "toy:leftover", lambda: (info(), h5snap.diff(before, after)))
        left = [x for x in os.listdir(c.dir) if not x.endswith(".h5")]
        c.require(not left, "toy:leftover_files", lambda: (info(), left))
    procs = [p for p in entry.iter_is_nxclass("NXprocess")]
    for p in procs:
        v = p.config.read()
        c.require(toy_complete(p, v["value"], v["n"]), "toy:partial_process", lambda: (info(), p))
    if kind == "keyboard" or kind == "sigint":
        pass
    # the work can be done afterwards
    if not done:
        t2.run()
    c.require(t2.done and toy_complete(t2.output, value, n), "toy:rerun", info)
    c.require(t2.output.name == "job.2" and t2.output.valid_checksum(), "toy:rerun_name", lambda: t2.output)
    if files:
        d = os.path.join(c.dir, entry.name + "_" + t2.output.name)
        c.require(os.path.isdir(d) and sorted(os.listdir(d)) == ["f{}.txt".format(k) for k in range(n)], "toy:rerun_files", info)
    # same object again
    t3 = toy("job", value + 1, n, **kw)
    t3.run()
    c.require(toy_complete(t3.output, value + 1, n) and t3.output.name == "job.3", "toy:next", info)
    c.key(kind, where, n, files, dep is None)


def sigkill(c, rng):
    """the process is killed between two operations"""
    n = rng.randint(1, 3)
    steps = [("begin", 0)] + [(w, k) for k in range(n) for w in ("before", "after")] + [("end", n)]
    where = rng.choice(steps)
    files = rng.random() < 0.5
    filename = os.path.join(c.dir, "t.h5")
    entry = nxfs.Path("/", h5file=filename).nxroot().new_nxentry()
    value = rng.randint(1, 50)
    first = toy("job", 100, 2, outputparent=entry)
    first.run()
    keep = h5snap.snapshot(filename, first.output.path)

    def hook(step):
        if step == where:
            os.kill(os.getpid(), signal.SIGKILL)

    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(60)
            toy("job", value, n, outputparent=entry, hook=hook, files=files).run()
        finally:
            os._exit(17)
    _, status = os.waitpid(pid, 0)
    c.require(os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL, "kill:monitor", lambda: status)
    c.event("killed")
    info = lambda: (where, n, files)
    t = toy("job", value, n, outputparent=entry, files=files)
    c.require(not t.done, "kill:visible", info)
    c.require(entry.find_nxprocess(name="job.1", parameters=t.parameters, dependencies=[]) is None, "kill:found", info)
    c.require(keep == h5snap.snapshot(filename, first.output.path), "kill:other_output_changed", info)
    t.run()
    c.require(t.done and toy_complete(t.output, value, n) and t.output.name == "job.2", "kill:rerun", info)
    c.require(t.output.valid_checksum(), "kill:checksum", info)
    c.key(where, n, files, value)


class FailAt:
    """The k-th HDF5 modification (dataset creation, write, attribute update, link, move) fails"""

    TARGETS = [
        (h5py.Dataset, "__setitem__"),
        (h5py.Group, "create_dataset"),
        (h5py.Group, "create_group"),
        (h5py.Group, "move"),
    ]

    def __init__(self, k=None, exc=None, args=(), after=False):
        # the exception is made when needed: keeping it would keep what was open
        self.k, self.exc, self.args, self.after = k, exc, args, after
        self.n = 0
        self.active = True
        self.where = None

    def __enter__(self):
        self.saved = [(cls, name, getattr(cls, name)) for cls, name in self.TARGETS]

        def wrap(name, func):
            def wrapper(*args, **kw):
                if not self.active:
                    return func(*args, **kw)
                self.n += 1
                if self.n == self.k:
                    self.active = False
                    self.where = name
                    if self.after:
                        func(*args, **kw)
                    raise self.exc(*self.args)
                return func(*args, **kw)

            return wrapper

        for cls, name, func in self.saved:
            setattr(cls, name, wrap(name, func))
        return self

    def __exit__(self, *args):
        for cls, name, func in self.saved:
            setattr(cls, name, func)


class Logged(logging.Handler):
    """Errors logged by the code under test"""

    def emit(self, record):
        self.text += record.getMessage()[-1500:] + "\n"

    def __enter__(self):
        self.text = ""
        self.setLevel(logging.ERROR)
        logging.disable(logging.NOTSET)
        logging.getLogger().addHandler(self)
        return self

    def __exit__(self, *args):
        logging.getLogger().removeHandler(self)
        logging.disable(logging.CRITICAL)


METHODS = {
    "crop": {"method": "crop", "reference": "Fe-K", "roi": [(0, 2), (1, 4)]},
    "replace": {"method": "replace", "old": 2.0, "new": -1.0},
    "minlog": {"method": "minlog"},
    "expression": {"method": "expression", "expression": "{}/{arr_iodet}"},
    "align": {"method": "align", "alignmethod": "max", "reference": "Fe-K", "refimageindex": 0},
    "resample": {"method": "resample", "encoders": {"y": {"counter": "arr_samy", "resolution": 2}}, "crop": True},
}


def shipped(method):
    def func(c, rng):
        filename = os.path.join(c.dir, "t.h5")
        groups = {"detector00": ["Fe-K", "Si-K"], "counters": ["arr_iodet", "arr_samy"]}
        rs = c.np

        def data(group, sig, shape):
            if sig == "arr_samy":
                y = np.arange(shape[1])[None, :, None] * 2.0 * 2 + 2
                return np.broadcast_to(y, shape) + rs.rand(*shape) * 0.01
            return rs.randint(1, 50, shape) / 4.0

        src, _, _ = make_source(filename, rs, shape=(2, 6, 5), groups=groups, data=data)
        p = dict(METHODS[method])
        if method not in ("align",):
            p["sliced"] = rng.random() < 0.5
        p["default"] = rng.choice(["Fe-K", "Si-K", None])
        # undisturbed run in another file
        other = os.path.join(c.dir, "ref")
        os.mkdir(other)
        import shutil

        shutil.copy(filename, os.path.join(other, "t.h5"))
        rsrc = nxfs.factory(src.location.replace(filename, os.path.join(other, "t.h5")))
        with FailAt() as mon:
            rt = task(rsrc, **p)
            rt.run()
        c.require(rt.done, "shipped:undisturbed:" + method, lambda: p)
        ref, raxes = read_result(rt.output)
        total = mon.n
        c.require(total > 3, "shipped:monitor", lambda: total)
        nk = min(total, 6 if c.tier == "quick" else 40)
        for k in sorted(rng.sample(range(1, total + 1), nk)):
            before = h5snap.snapshot(filename, src.path)
            procs = {x.name for x in src.parent.iter_is_nxclass("NXprocess")}
            exc = rng.choice([(OSError, (28, "injected")), (RuntimeError, ("injected",)), (ValueError, ("injected",)), (KeyboardInterrupt, ()), (MemoryError, ())])
            t = task(src, **p)
            with FailAt(k, *exc, after=rng.random() < 0.3) as mon:
                try:
                    t.run()
                except BaseException as e:
                    raised = repr(e)
                else:
                    raised = None
            c.event("injected_failures")
            gc.collect()
            info = lambda: (p, k, total, mon.where, exc, raised)
            c.require(h5snap.snapshot(filename, src.path) == before, "shipped:input_changed", info)
            t2 = task(src, **p)
            if t2.done:
                # failed after the output was in place
                got, gaxes = read_result(t2.output)
                c.require(same(got, ref), "shipped:partial_visible", info)
                c.event("failed_after_completion")
                t2.output.remove(recursive=True)
            else:
                c.event("rolled_back")
            left = {x.name for x in src.parent.iter_is_nxclass("NXprocess")} - procs
            bad = [x for x in left if x.startswith(method)]
            c.require(not bad, "shipped:partial_process", lambda: (info(), left))
            for x in left:
                # the failure happened while the temporary output was set up or cleaned
                src.parent[x].remove(recursive=True)
        t = task(src, **p)
        with Logged() as log:
            t.run()
        c.require(t.done, "shipped:rerun", lambda: (p, log.text))
        got, gaxes = read_result(t.output)
        c.require(same(got, ref), "shipped:rerun_content", lambda: (p, got, ref))
        c.require(t.output.valid_checksum(), "shipped:rerun_checksum")
        c.key(method, repr(p), total)

    return func


def same(a, b):
    return set(a) == set(b) and all(
        set(a[g]) == set(b[g]) and all(np.array_equal(a[g][s], b[g][s], equal_nan=True) for s in a[g]) for g in a
    )


GROUPS = [
    Group("toy", toytask, 96, 576, timeout=90),
    Group("sigkill", sigkill, 16, 200, timeout=90),
] + [Group("shipped_" + m, shipped(m), 3, 40, timeout=180) for m in METHODS]
