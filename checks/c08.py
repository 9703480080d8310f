"""Temporary nodes and files: never an existing one, gone (or renamed) afterwards, nothing else touched."""
import os
import re
import signal
import random
import tempfile
import h5py
from lib.vp import Group, Discard
from lib import h5snap
from spectrocrunch.io import fs, localfs, h5fs, nxfs
from spectrocrunch.io import utils as ioutils

ID = "C08"
LEVEL = "exploration"
RULE = (
    "random pre-existing directories (local and HDF5) x what the body of the context does (nothing, file, directory "
    "tree, link) x how it ends (normally, exception, KeyboardInterrupt, SystemExit) x options (name, force, remove); "
    "the directory is observed independently before and after; colliding names are forced with tiny alphabets and a "
    "replayed random generator; mkdir by concurrent processes; non-trivial: all"
)


class Boom(Exception):
    pass


ENDS = [None, Boom, KeyboardInterrupt, SystemExit, MemoryError]


def look(root):
    """{relative path: content} of a local directory"""
    out = {}
    for d, subs, files in os.walk(root):
        for x in subs + files:
            p = os.path.join(d, x)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[rel] = ("dir",)
            else:
                with open(p, "rb") as f:
                    out[rel] = ("file", f.read())
    return out


def look5(filename, root):
    snap = h5snap.snapshot(filename, root, volatile=True)
    n = len(root.rstrip("/")) + 1
    return {k[n:]: v for k, v in snap.items() if k != "."}


def populate(root, rng, names):
    for n in names:
        kind = rng.choice(["file", "dir", "tree"])
        if kind == "file":
            put(root[n], "old" + n)
        else:
            d = root[n].mkdir()
            if kind == "tree":
                put(d["a"], "old" + n)
                d["b"].mkdir()


def put(path, text):
    """file with some content"""
    if isinstance(path, h5fs.Path):
        path.mkfile(data=text)
    else:
        path.mkfile(data=text, mode="w")


def treestate(state, name):
    return {k: v for k, v in state.items() if k == name or k.startswith(name + "/")}


def renamed(state, old, new):
    return {new + k[len(old):]: v for k, v in treestate(state, old).items()}


def temp(backend):
    def func(c, rng):
        if backend == "local":
            os.mkdir(os.path.join(c.dir, "root"))
            root = localfs.Path(os.path.join(c.dir, "root"))
            observe = lambda: look(root.path)
        else:
            filename = os.path.join(c.dir, "t.h5")
            root = h5fs.Path("/root", h5file=filename).mkdir()
            observe = lambda: look5(filename, "/root")
        names = rng.sample(["a", "b", "x1", "y2", "final"], rng.randint(0, 4))
        populate(root, rng, names)
        before = observe()
        action = rng.choice(["nothing", "file", "dir", "tree", "link"])
        if action == "link" and not names:
            action = "file"
        end = rng.choice(ENDS)
        name = rng.choice([None, None, "final", "new", names[0] if names else "new"])
        force = rng.random() < 0.5
        remove = rng.random() < 0.7
        kw = {}
        if rng.random() < 0.4:
            kw["prefix"] = rng.choice(["tmp_", "a"])
        if rng.random() < 0.4:
            kw["suffix"] = rng.choice([".tmp", ".cfg"])
        info = lambda: (backend, names, action, end, name, force, remove, kw)
        mid = None
        raised = None
        tmp = None
        try:
            with root.temp(name=name, force=force, remove=remove, **kw) as tmp:
                c.require(not tmp.lexists, "temp:exists_already", info)
                c.require(tmp.name not in {k.split("/")[0] for k in before}, "temp:collision", info)
                c.require(tmp.parent == root, "temp:location", info)
                c.require(tmp.name.startswith(kw.get("prefix", "")) and tmp.name.endswith(kw.get("suffix", "")), "temp:affix", info)
                if action == "file":
                    put(tmp, "new")
                elif action == "dir":
                    tmp.mkdir()
                elif action == "tree":
                    put(tmp.mkdir()["q"].mkdir()["r"], "deep")
                elif action == "link":
                    tmp.link(root[names[0]])
                mid = observe()
                c.require({k: v for k, v in mid.items() if k.split("/")[0] != tmp.name} == before, "temp:others_during", info)
                if end:
                    raise end("x")
        except fs.FileSystemException as e:
            raised = e
        except BaseException as e:
            raised = e
            if end is None or not isinstance(e, end):
                raise
        if end:
            c.require(isinstance(raised, end), "temp:exception_lost", lambda: (info(), raised))
        after = observe()
        tmpname = tmp.name
        if action == "link":
            # removal of links with recursive=True removes the destination by design
            if name is None and not remove:
                c.require(after == mid, "temp:kept", info)
            elif name is not None and name not in names:
                c.require(name in after and tmpname not in after, "temp:link_renamed", info)
            c.key(*info()[1:])
            return
        if name is None:
            expected = mid if not remove else before
        elif action == "nothing":
            expected = before
        elif name in names:
            if force:
                expected = {k: v for k, v in mid.items() if k.split("/")[0] not in (name, tmpname)}
                expected.update(renamed(mid, tmpname, name))
            else:
                # refused
                expected = before
        else:
            expected = dict(before)
            expected.update(renamed(mid, tmpname, name))
        c.require(after == expected, "temp:after", lambda: (info(), raised, sorted(after), sorted(expected), tmpname))
        if raised is not None and end is None:
            c.require(False, "temp:raised", lambda: (info(), repr(raised)))
        c.event("temp_" + action)
        c.event("ended_by_exception", int(end is not None))
        c.key(*info())

    return func


def randomnode(c, rng):
    """Names never collide, even if (nearly) all of them are taken"""
    if rng.random() < 0.5:
        os.mkdir(os.path.join(c.dir, "root"))
        root = localfs.Path(os.path.join(c.dir, "root"))
    else:
        root = h5fs.Path("/root", h5file=os.path.join(c.dir, "t.h5")).mkdir()
    chars = rng.choice(["ab", "abc", "abcde"])
    taken = set(rng.sample(chars, len(chars) - 1))
    prefix = rng.choice(["", "p_"])
    suffix = rng.choice(["", ".s"])
    for x in sorted(taken):
        n = root[prefix + x + suffix]
        n.mkdir() if rng.random() < 0.5 else put(n, "x")
    for _ in range(3):
        node = root.randomnode(prefix=prefix, suffix=suffix, size=1, chars=chars)
        (free,) = set(chars) - taken
        c.require(node.name == prefix + free + suffix, "randomnode:taken", lambda: (node, taken))
        c.require(not node.exists, "randomnode:exists", lambda: node)
        c.event("forced_collisions")
    c.key(chars, repr(sorted(taken)), prefix, suffix)


def nonexisting(c, rng):
    os.mkdir(os.path.join(c.dir, "root"))
    root = localfs.Path(os.path.join(c.dir, "root")) if rng.random() < 0.5 else nxfs.Path("/root", h5file=os.path.join(c.dir, "t.h5")).mkdir()
    base = rng.choice(["job.1", "a", "b(2)", "x(1)(2)"])
    m = re.match(r"^(.+)\((\d+)\)$", base)
    stem, start = (m.group(1), int(m.group(2)) + 1) if m else (base, 1)
    names = set()
    for k in rng.sample(range(0, 6), rng.randint(0, 5)):
        names.add(base if k == 0 else "{}({})".format(stem, start + k - 1))
    for n in sorted(names):
        root[n].mkdir()
    if base in names:
        i = start
        while "{}({})".format(stem, i) in names:
            i += 1
        expected = "{}({})".format(stem, i)
    else:
        expected = base
    got = root.nonexisting_name(base)
    c.require(got == expected and got not in names, "nonexisting:name", lambda: (base, names, got, expected))
    c.key(base, repr(sorted(names)))


def files(c, rng):
    """io.utils context managers"""
    src = os.path.join(c.dir, "src.dat")
    content = bytes(rng.randrange(256) for _ in range(rng.randint(0, 200)))
    with open(src, "wb") as f:
        f.write(content)
    os.mkdir(os.path.join(c.dir, "tmp"))
    tmpdir = os.path.join(c.dir, "tmp")
    old = tempfile.tempdir
    tempfile.tempdir = tmpdir
    kind = rng.choice(["copy", "tempcopy", "tempname"])
    end = rng.choice(ENDS)
    act = rng.choice(["nothing", "modify", "delete"])
    info = lambda: (kind, end, act)
    bystander = os.path.join(tmpdir, "bystander")
    with open(bystander, "w") as f:
        f.write("keep")
    dest = os.path.join(c.dir, "copy.dat")
    path = None
    raised = None
    try:
        if kind == "copy":
            ctx = ioutils.Copy(src, dest)
        elif kind == "tempcopy":
            ctx = ioutils.TemporaryCopy(src, ext=".xyz")
        else:
            ctx = ioutils.TemporaryFilename(rng.choice(["", tmpdir]), suffix=".cfg", prefix="p")
        try:
            with ctx as path:
                if kind == "tempname":
                    c.require(not os.path.exists(path), "files:exists", info)
                    c.require(os.path.basename(path).startswith("p") and path.endswith(".cfg"), "files:affix", info)
                    if act != "nothing":
                        with open(path, "w") as f:
                            f.write("x")
                else:
                    with open(path, "rb") as f:
                        c.require(f.read() == content, "files:copied", info)
                    c.require(not os.path.samefile(path, src), "files:same", info)
                    if act == "modify":
                        with open(path, "ab") as f:
                            f.write(b"more")
                if act == "delete" and os.path.exists(path):
                    os.remove(path)
                if end:
                    raise end("x")
        except BaseException as e:
            raised = e
            if end is None or not isinstance(e, end):
                raise
    finally:
        tempfile.tempdir = old
    c.require(end is None or raised is not None, "files:exception_lost", info)
    with open(src, "rb") as f:
        c.require(f.read() == content, "files:source_changed", info)
    if kind == "copy":
        c.require(path == dest, "files:name", info)
        keep = end is None and act != "delete"
        c.require(os.path.exists(dest) == keep, "files:copy_after", info)
        if keep:
            with open(dest, "rb") as f:
                c.require(f.read() == content + (b"more" if act == "modify" else b""), "files:copy_content", info)
    else:
        c.require(not os.path.exists(path), "files:left", info)
        c.require(os.path.dirname(path) == tmpdir, "files:place", info)
    with open(bystander) as f:
        c.require(f.read() == "keep", "files:bystander", info)
    c.require(set(os.listdir(tmpdir)) == {"bystander"}, "files:leftover", lambda: (info(), os.listdir(tmpdir)))
    c.event("file_contexts")
    c.key(*info(), len(content))


def mkdirs(c, rng):
    """Concurrent creation of the same directory tree"""
    n = rng.randint(2, 5)
    depth = rng.randint(1, 6)
    how = rng.choice(["utils", "path"])
    reps = 15
    r, w = os.pipe()
    pids = []
    for i in range(n):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.alarm(40)
                os.close(w)
                os.read(r, 1)
                for k in range(reps):
                    p = os.path.join(c.dir, "d{}".format(k), *["x"] * depth)
                    if how == "utils":
                        ioutils.mkdir(p)
                    else:
                        localfs.Path(p).mkdir()
                    if not os.path.isdir(p):
                        os._exit(3)
                code = 0
            except BaseException:
                import traceback

                traceback.print_exc()
            finally:
                os._exit(code)
        pids.append(pid)
    os.close(r)
    os.close(w)
    codes = [os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) for pid in pids]
    c.require(codes == [0] * n, "mkdirs:failed", lambda: (how, n, depth, codes))
    c.event("concurrent_mkdirs", n * reps)
    # existing file in the way is an error
    p = os.path.join(c.dir, "f")
    open(p, "w").close()
    try:
        ioutils.mkdir(p)
    except OSError:
        pass
    else:
        c.require(False, "mkdirs:file_accepted", "")
    ioutils.mkdir("")
    c.key(n, depth, how, c.seedstr)


GROUPS = [
    Group("temp_local", temp("local"), 300, 6000),
    Group("temp_h5", temp("h5"), 200, 3000),
    Group("randomnode", randomnode, 60, 600),
    Group("nonexisting", nonexisting, 60, 600),
    Group("files", files, 150, 2000),
    Group("mkdirs", mkdirs, 16, 200),
]
MIN_EVENTS = {"forced_collisions": 50, "ended_by_exception": 50, "file_contexts": 100, "concurrent_mkdirs": 100}
