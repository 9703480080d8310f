"""Open modes are honoured, devices are protected, transfers between devices are complete."""
import os
import errno
import hashlib
import h5py
import numpy as np
from lib.vp import Group
from lib import h5snap
from spectrocrunch.io import fs, localfs, h5fs, nxfs

ID = "C02"
LEVEL = "fault_enumeration"
RULE = (
    "all combinations of device mode x requested mode x existing/missing target on local and HDF5 "
    "files; random operation sequences on read-only HDF5/NeXus devices; moves and copies of random "
    "trees between HDF5 files and across (simulated) local file-system boundaries, with a failure "
    "injected at every file-system call of the transfer; non-trivial when the target existed or an "
    "operation was attempted"
)

LOCALMODES = ["r", "r+", "w", "w+", "x", "x+", "a", "a+"]
H5MODES = ["r", "r+", "w", "x", "w-", "a"]


def digest(filename):
    if not os.path.exists(filename):
        return None
    with open(filename, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def localmodes(c, rng):
    """device mode x requested mode x existing x operation"""
    i = int(c.seedstr.rsplit(":", 1)[1])
    dev = LOCALMODES[i % 8]
    req = ([None] + LOCALMODES)[(i // 8) % 9]
    exists = (i // 72) % 2 == 0
    filename = os.path.join(c.dir, "f.txt")
    old = "".join(rng.choice("abc\n") for _ in range(rng.randint(1, 20)))
    if exists:
        with open(filename, "w") as f:
            f.write(old)
    new = "".join(rng.choice("XYZ") for _ in range(rng.randint(1, 25)))
    path = localfs.Path(filename, mode=dev)
    kw = {} if req is None else {"mode": req}
    got, err = None, None
    try:
        with path.open(**kw) as f:
            if rng.random() < 0.9:
                f.write(new)
            else:
                new = ""
    except (OSError, ValueError, fs.FileSystemException) as e:
        err = e
    after = None
    if os.path.exists(filename):
        with open(filename) as f:
            after = f.read()
    c.event("mode_combinations")
    c.key(dev, req, exists, old, new)
    tag = "local:{}".format(dev)
    info = lambda: (dev, req, exists, old, new, after, repr(err))
    if dev == "r":
        c.require(after == (old if exists else None), tag + ":modified", info)
        if not exists:
            c.require(isinstance(err, fs.Missing), tag + ":missing", info)
        elif new:
            c.require(err is not None, tag + ":write_accepted", info)
        # and reading works
        if exists:
            c.require(path.read() == old, tag + ":read", info)
    elif dev == "r+":
        if not exists:
            c.require(after is None and isinstance(err, fs.Missing), tag + ":created", info)
        elif err is None:
            exp = new + old[len(new):]
            c.require(after == exp, tag + ":content", info)
        else:
            c.require(req == "r" and after == old, tag + ":refused", info)
    elif dev in ("a", "a+"):
        if err is None and req not in ("r+", "r"):
            c.require(after == (old if exists else "") + new, tag + ":append", info)
        elif req == "r+" and err is None:
            c.require(exists and after == new + old[len(new):], tag + ":overwrite", info)
        else:
            c.require(after == (old if exists else None), tag + ":refused", info)
    elif dev in ("w", "w+"):
        if req == "r":
            c.require(after == (old if exists else None), tag + ":readmode", info)
        else:
            c.require(err is None and after == new, tag + ":truncate", info)
    else:
        # exclusive creation
        if req not in ("w", "w+"):
            if exists:
                c.require(err is not None and after == old, tag + ":exclusive", info)
            else:
                c.require(err is None and after == new, tag + ":create", info)


def h5modes(c, rng):
    i = int(c.seedstr.rsplit(":", 1)[1])
    dev = H5MODES[i % 6]
    req = ([None] + H5MODES)[(i // 6) % 7]
    exists = (i // 42) % 2 == 0
    filename = os.path.join(c.dir, "f.h5")
    if exists:
        with h5py.File(filename, "w") as f:
            f["old"] = np.arange(3)
    before = digest(filename)
    device = h5fs.h5Device(filename, mode=dev)
    kw = {} if req is None else {"mode": req}
    err = None
    try:
        with device.open(**kw) as f:
            f["new"] = 1
    except Exception as e:
        err = e
    names = None
    if os.path.exists(filename):
        with h5py.File(filename, "r", locking=False) as f:
            names = set(f)
    info = lambda: (dev, req, exists, names, repr(err))
    tag = "h5:{}".format(dev)
    c.event("mode_combinations")
    c.key(dev, req, exists)
    if dev == "r" or req == "r":
        c.require(digest(filename) == before and err is not None, tag + ":modified", info)
    elif dev == "r+":
        if exists:
            c.require(err is None and names == {"old", "new"}, tag + ":content", info)
        else:
            c.require(names is None and isinstance(err, fs.Missing), tag + ":created", info)
    elif dev == "a":
        c.require(err is None and names == ({"old", "new"} if exists else {"new"}), tag + ":append", info)
    elif dev == "w":
        if req == "a":
            c.require(err is None and names == ({"old", "new"} if exists else {"new"}), tag + ":append", info)
        else:
            c.require(err is None and names == {"new"}, tag + ":truncate", info)
    elif req not in ("w", "a", "r+") or not exists:
        if exists:
            c.require(err is not None and digest(filename) == before, tag + ":exclusive", info)
        else:
            c.require(err is None and names == {"new"}, tag + ":create", info)
    else:
        c.require(err is not None and digest(filename) == before, tag + ":exclusive", info)


def random_tree(rng, root, depth=0, prefix="n"):
    n = rng.randint(1, 3)
    out = []
    for i in range(n):
        name = "{}{}".format(prefix, i)
        if depth < 2 and rng.random() < 0.5:
            d = root[name].mkdir()
            out.append(name)
            random_tree(rng, d, depth + 1)
        else:
            root[name].mkfile(data="content{}".format(rng.randint(0, 10**6)))
            out.append(name)
    return out


OPS = ["mkdir", "mkfile", "write", "remove", "rremove", "move", "rename", "copy", "link", "stats",
       "openstats", "nxclass", "pop"]


def readonly(c, rng):
    """whatever is attempted on a read-only device: same bytes, and reading still works"""
    cls = rng.choice([h5fs.Path, nxfs.Path])
    filename = os.path.join(c.dir, "f.h5")
    rw = cls("/", h5file=filename)
    top = rw["top"].mkdir()
    random_tree(rng, top)
    rw["data"].mkfile(data=np.arange(5))
    rw["top"].update_stats(a=1)
    if cls is nxfs.Path:
        entry = rw.nxroot().nxentry(name="entry0001")
        proc = entry.nxprocess("p.1", parameters={"a": 1})
        nxdata = proc.results.nxdata("d")
        nxdata.add_signal(name="s", data=np.zeros(3))
    before = digest(filename)
    how = rng.randint(0, 2)
    if how == 0:
        ro = cls("/", h5file=filename, mode="r")
    elif how == 1:
        ro = cls(filename + "::/", mode="r")
    else:
        ro = rw.readonly()
        c.require(ro is not None, "readonly:none")
    paths = ["top", "top/n0", "data", "missing", "top/missing", "new/deep"]
    n = rng.randint(4, 12)
    raised = 0
    for _ in range(n):
        p = ro[rng.choice(paths)]
        q = ro[rng.choice(paths) + "x"]
        op = rng.choice(OPS)
        refuse = False
        try:
            if op == "mkdir":
                p.mkdir()
            elif op == "mkfile":
                refuse = not p.exists
                p.mkfile(data="x", mode=rng.choice(["w", "a", "x"]))
            elif op == "write":
                refuse = not p.exists
                p.write(data=np.arange(3), mode="w")
            elif op in ("remove", "rremove"):
                refuse = p.exists and (p.isfile or op == "rremove")
                p.remove(recursive=op == "rremove")
            elif op in ("move", "rename", "copy"):
                refuse = p.exists
                getattr(p, op)(q, force=rng.random() < 0.5)
            elif op == "link":
                refuse = not q.exists
                q.link(p)
            elif op == "stats":
                refuse = p.exists
                p.update_stats(a=rng.randint(2, 9))
            elif op == "openstats":
                refuse = p.exists
                with p.openstats() as s:
                    s["b"] = 2
            elif op == "pop":
                p.pop_stat("a")
            elif op == "nxclass" and cls is nxfs.Path:
                rng.choice([
                    lambda: ro.nxroot().nxentry(name="entry0002"),
                    lambda: ro["entry0001"].nxprocess("q.1", parameters={"b": 1}),
                    lambda: ro["entry0001/p.1/results/d"].add_signal(name="t", data=np.zeros(3)),
                    lambda: ro["entry0001/p.1/results/d"].mark_default(),
                ])()
        except Exception:
            raised += 1
        else:
            c.require(not refuse, "readonly:accepted", lambda: (op, p, q))
        c.require(digest(filename) == before, "readonly:modified", lambda: (op, p, q))
        c.event("readonly_attempts")
    c.event("readonly_refused", raised)
    c.require(ro["data"].read().tolist() == [0, 1, 2, 3, 4], "readonly:read")
    c.require(ro["top"].isdir and not ro["missing"].exists, "readonly:query")
    c.key(cls.__module__, how, raised, n, c.seedstr)


def crossdevice(c, rng):
    """move/copy between HDF5 files transfers the whole tree, a move leaves nothing behind"""
    cls = rng.choice([h5fs.Path, nxfs.Path])
    f1, f2 = os.path.join(c.dir, "a.h5"), os.path.join(c.dir, "b.h5")
    r1, r2 = cls("/", h5file=f1), cls("/", h5file=f2)
    src = r1["src"].mkdir()
    random_tree(rng, src)
    src.update_stats(note="text", num=3)
    src["arr"].mkfile(data=np.arange(6).reshape(2, 3))
    withlink = rng.random() < 0.6
    if withlink:
        src["lnk"].link(src["arr"])
        src["sub"].mkdir()["lnk2"].link(src["arr"])
    keep = r1["keep"].mkfile(data="keep")
    other = r2["other"].mkfile(data="other")
    snap = h5snap.snapshot(f1, "/src")
    op = rng.choice(["move", "copy", "rename"])
    intodir = rng.random() < 0.3 and op != "rename"
    if intodir:
        r2["box"].mkdir()
        dest = getattr(src, op)(r2["box"])
        c.require(dest == r2["box/src"], "cross:into_directory", lambda: dest)
    else:
        target = rng.choice(["dst", "deep/er/dst"])
        dest = getattr(src, op)(r2[target])
        c.require(dest == r2[target], "cross:result", lambda: dest)
    got = h5snap.snapshot(f2, dest.path)
    norm = lambda s, base: {k[len(base):] if k != "." else k: (v if v[0] not in ("soft", "external") else v[:1]) for k, v in s.items()}
    a, b = norm(snap, "/src"), norm(got, dest.path)
    c.require(a == b, "cross:content", lambda: h5snap.diff(a, b))
    if withlink:
        for name in ("lnk", "sub/lnk2"):
            lnk = dest[name]
            c.require(lnk.linkdest() == dest["arr"], "cross:inner_link", lambda: (lnk, lnk.linkdest()))
            c.require(np.array_equal(lnk.read(), np.arange(6).reshape(2, 3)), "cross:inner_link_value")
    c.require(src.exists == (op == "copy"), "cross:source", op)
    if op == "copy":
        c.require(h5snap.snapshot(f1, "/src") == snap, "cross:source_changed")
    c.require(keep.read() == "keep" and other.read() == "other", "cross:bystander")
    names = set(h5py.File(f2, "r", locking=False))
    c.require(names <= {"other", "box", "dst", "deep"}, "cross:leftover", lambda: names)
    # refused without force, replaced with force
    src2 = r1["src2"].mkdir()
    src2["only"].mkfile(data="2")
    before = h5snap.snapshot(f2)
    try:
        src2.copy(dest.parent["zz"]["dst"]) if False else src2.rename(dest)
    except fs.AlreadyExists:
        pass
    else:
        c.require(False, "cross:clobbered")
    c.require(h5snap.snapshot(f2) == before and src2.exists, "cross:refused_state")
    src2.rename(dest, force=True)
    c.require([x.name for x in dest.listdir()] == ["only"] and not src2.exists, "cross:force")
    # external links are seen as links to the other file
    lnk = r1["ext"].link(dest)
    c.require(lnk.linkdest() == dest and lnk.islink and r1["ext/only"].read() == "2", "cross:external_link")
    lnk.remove()
    c.require(dest.exists and not lnk.lexists, "cross:external_remove")
    c.event("cross_device_transfers")
    c.key(cls.__module__, op, intodir, c.seedstr)


class Boundary:
    """os calls of the local back-end: renames across directories fail as across file systems do,
    the k-th call fails"""

    def __init__(self, fail=None):
        self.fail = fail
        self.n = 0
        self.calls = []

    def __enter__(self):
        self.saved = os.rename, localfs.shutil.copy, localfs.shutil.copytree, os.mkdir
        rename, copy_, copytree, mkdir = self.saved

        def step(name):
            self.n += 1
            self.calls.append(name)
            if self.n == self.fail:
                raise OSError(errno.ENOSPC, "injected at {} {}".format(name, self.n))

        def fake_rename(a, b):
            if os.path.dirname(a) != os.path.dirname(b):
                raise OSError(errno.EXDEV, "Invalid cross-device link")
            step("rename")
            return rename(a, b)

        def fake_copy2(a, b, **kw):
            step("copyfile")
            return copy_(a, b, **kw)

        def fake_copytree(a, b, symlinks=False, ignore=None, copy_function=None, *args, **kw):
            # file by file
            return copytree(a, b, symlinks, ignore, fake_copy2, *args, **kw)

        os.rename = fake_rename
        localfs.shutil.copy = fake_copy2
        localfs.shutil.copytree = fake_copytree
        return self

    def __exit__(self, *args):
        os.rename, localfs.shutil.copy, localfs.shutil.copytree, os.mkdir = self.saved


def localtree(path):
    out = {}
    for base, dirs, files in os.walk(path):
        for d in dirs:
            full = os.path.join(base, d)
            out[os.path.relpath(full, path)] = ("l", os.readlink(full)) if os.path.islink(full) else ("d",)
        for f in files:
            full = os.path.join(base, f)
            if os.path.islink(full):
                out[os.path.relpath(full, path)] = ("l", os.readlink(full))
            else:
                with open(full) as h:
                    out[os.path.relpath(full, path)] = ("f", h.read())
    return out


def boundary(c, rng):
    """local move over a file-system boundary: complete or the source is still intact"""
    def setup(sub):
        root = localfs.Path(os.path.join(c.dir, sub))
        a, b = root["fs1"].mkdir(), root["fs2"].mkdir()
        r2 = type(rng)(c.seedstr)
        isdir = r2.random() < 0.7
        if isdir:
            src = a["src"].mkdir()
            random_tree(r2, src)
        else:
            src = a["src"].mkfile(data="single")
        dst = b["dst"]
        force = r2.random() < 0.3
        if force:
            dst.mkfile(data="old")
        return src, dst, force, isdir

    src, dst, force, isdir = setup("0")
    tree = localtree(src.path) if isdir else open(src.path).read()
    look = lambda p: localtree(p.path) if os.path.isdir(p.path) else (open(p.path).read() if os.path.exists(p.path) else None)
    with Boundary() as mon:
        ret = src.move(dst, force=force, rename=True)
    c.require(ret == dst, "boundary:result", lambda: ret)
    c.require(look(dst) == tree, "boundary:content", lambda: (tree, look(dst)))
    c.require(not os.path.lexists(src.path), "boundary:source_left")
    c.require(os.listdir(dst.parent.path) == ["dst"], "boundary:leftover", lambda: os.listdir(dst.parent.path))
    ncalls = mon.n
    c.require(ncalls >= 2, "boundary:monitor", "the transfer was not seen")
    for k in range(1, ncalls + 1):
        src, dst, force, _ = setup(str(k))
        with Boundary(fail=k):
            try:
                src.move(dst, force=force, rename=True)
            except Exception as e:
                err = e
            else:
                err = None
        c.event("injected_failures")
        if err is None:
            c.require(look(dst) == tree, "boundary:silent_failure", lambda: (k, mon.calls))
        else:
            c.require(look(src) == tree, "boundary:source_lost", lambda: (k, mon.calls, tree, look(src)))
            d = look(dst)
            c.require(d is None or d == tree or (force and d == "old"), "boundary:partial_destination", lambda: (k, mon.calls, d))
    c.key(force, repr(tree))


GROUPS = [
    Group("localmodes", localmodes, 288, 288 * 8),
    Group("h5modes", h5modes, 84, 84),
    Group("readonly", readonly, 100, 2000, timeout=120),
    Group("crossdevice", crossdevice, 80, 1500),
    Group("boundary", boundary, 60, 800),
]
