"""Path API == tree model, for the local and the HDF5 back-end."""
import os
import copy
import h5py
import numpy as np
from lib.vp import Group, Discard
from spectrocrunch.io import fs, localfs, h5fs, nxfs

ID = "C01"
LEVEL = "exploration"
RULE = (
    "random histories of 6-30 operations (mkdir, mkfile, overwrite, move, rename, copy, copy with "
    "follow/dereference, remove, recursive remove, soft and hard links) over a tree with few names, "
    "on local directories, HDF5 files and NeXus files; after every operation the API and an "
    "independent reader (os / h5py) are compared with an executable tree model, including the error "
    "class and the unchanged state of refused operations; non-trivial when at least 3 operations "
    "changed the tree"
)

NAMES = ["a", "ab", "b", "c.txt", "d d", "e(1)", "é"]


# ------------------------------------------------------------------ model
class Model:
    """Tree of ["d", {name: node}], ["f", [content]] and ["l", text]"""

    def __init__(self, h5):
        self.h5 = h5
        self.root = ["d", {}]

    def copy(self):
        return copy.deepcopy(self)

    def lget(self, parts):
        """(node, parent) of a path without following the last link; None when missing"""
        node = self.root
        real = ()
        for i, p in enumerate(parts):
            node, real = self.follow(node, real)
            if node is None or node[0] != "d" or p not in node[1]:
                return None
            if i == len(parts) - 1:
                return node[1][p]
            node, real = node[1][p], real + (p,)
        return node

    def follow(self, node, real, depth=0):
        if depth > 20:
            raise Discard
        while node is not None and node[0] == "l":
            parts = self.target(real, node[1])
            node, real = self.resolve(parts, depth + 1)
        return node, real

    def resolve(self, parts, depth=0):
        """(node, real path) following all links; (None, None) when missing"""
        if depth > 20:
            raise Discard
        node, real = self.root, ()
        for p in parts:
            node, real = self.follow(node, real, depth + 1)
            if node is None or node[0] != "d" or p not in node[1]:
                return None, None
            node, real = node[1][p], real + (p,)
        return self.follow(node, real, depth + 1)

    @staticmethod
    def target(link, text):
        """path a link text refers to"""
        if text[0] == "/":
            return tuple(text[1])
        out = list(link[:-1])
        for t in text[1]:
            if t == "..":
                if not out:
                    raise Discard
                out.pop()
            else:
                out.append(t)
        return tuple(out)

    def text(self, link, dest):
        base = link[:-1]
        n = 0
        while n < min(len(base), len(dest)) and base[n] == dest[n]:
            n += 1
        up = len(base) - n
        if self.h5 and up:
            return ("/", tuple(dest))
        return ("", ("..",) * up + tuple(dest[n:]))

    def walk(self, node=None, path=()):
        node = self.root if node is None else node
        yield path, node
        if node[0] == "d":
            for k, v in node[1].items():
                for x in self.walk(v, path + (k,)):
                    yield x

    def links_in(self, node):
        return [p for p, n in self.walk(node) if n[0] == "l"]

    def through_link(self, parts):
        """a component before the last one is a link"""
        for i in range(1, len(parts)):
            n = self.lget(parts[:i])
            if n is None:
                return False
            if n[0] == "l":
                return True
        return False

    def ancestor_file(self, parts):
        for i in range(1, len(parts)):
            n, _ = self.resolve(parts[:i])
            if n is None:
                n2 = self.lget(parts[:i])
                return n2 is not None  # broken link on the way
            if n[0] == "f":
                return True
        return False

    def mkdirs(self, parts):
        for i in range(1, len(parts) + 1):
            n, _ = self.resolve(parts[:i])
            if n is None:
                p, _ = self.resolve(parts[: i - 1])
                p[1][parts[i - 1]] = ["d", {}]

    def unlink(self, parts):
        p, _ = self.resolve(parts[:-1])
        return p[1].pop(parts[-1])

    def put(self, parts, node):
        p, _ = self.resolve(parts[:-1])
        p[1][parts[-1]] = node

    def dup(self, node, path=(), dereference=False, depth=0, dest=None, seen=None):
        """copy of a node (contents are no longer shared)"""
        if self.h5 and dereference:
            # HDF5 makes hard links of nodes that are reached more than once
            seen = set() if seen is None else seen
            if node[0] != "l":
                if id(node) in seen:
                    raise Discard
                seen.add(id(node))
        if dest is not None and node[0] == "d" and dest[: len(path)] == tuple(path):
            raise Discard  # into itself
        if depth > 20:
            raise Discard
        if node[0] == "f":
            return ["f", [node[1][0]]]
        if node[0] == "l":
            if not dereference:
                return list(node)
            n, real = self.follow(node, path)
            if n is None:
                raise Discard
            return self.dup(n, real, dereference, depth + 1, dest, seen)
        return ["d", {k: self.dup(v, path + (k,), dereference, depth + 1, dest, seen) for k, v in node[1].items()}]

    def relink(self, src, dst):
        """HDF5: links below dst which point below src"""
        if not self.h5:
            return
        for p, n in self.walk(self.lget(dst), dst):
            if n[0] == "l":
                t = self.target(p, n[1])
                if t[: len(src)] == src:
                    n[1] = self.text(p, dst + t[len(src):])

    def check_cycles(self):
        for p, n in self.walk():
            if n[0] == "l":
                _, real = self.resolve(p)
                if real is not None and p[: len(real)] == tuple(real):
                    raise Discard  # link to an ancestor: infinite tree


class Refused(Exception):
    def __init__(self, *classes):
        self.classes = classes


# ------------------------------------------------------------------ operations
def rpath(rng, m, existing=0.7):
    """random path, mostly existing"""
    paths = [p for p, _ in m.walk()]
    p = rng.choice(paths)
    if rng.random() > existing or not p:
        p = p + (rng.choice(NAMES),)
    if rng.random() < 0.1:
        p = p + (rng.choice(NAMES),)
    return p[:5]


def gen(rng, m):
    kind = rng.choice(
        ["mkdir", "mkdir", "mkfile", "mkfile", "mkfile", "overwrite", "move", "move", "rename",
         "copy", "copy", "remove", "remove", "link", "link", "hardlink"]
    )
    p = rpath(rng, m, 0.4 if kind in ("mkdir", "mkfile", "link", "hardlink") else 0.95)
    if kind in ("move", "rename", "copy") and rng.random() < 0.5:
        # a directory with links in it
        d = [q for q, n in m.walk() if q and n[0] == "d" and m.links_in(n)]
        p = rng.choice(d) if d else p
    if not p:
        raise Discard
    op = {"op": kind, "path": p}
    if kind == "mkdir":
        op["recursive"] = rng.random() < 0.7
        op["force"] = rng.random() < 0.7
    elif kind in ("mkfile", "overwrite"):
        op["data"] = "data{}".format(rng.randint(0, 10**6))
    elif kind in ("move", "rename", "copy"):
        op["dest"] = rpath(rng, m, 0.4)
        op["force"] = rng.random() < 0.4
        if kind == "copy":
            op["follow"] = rng.random() < 0.4
            op["dereference"] = rng.random() < 0.2
    elif kind == "remove":
        op["recursive"] = rng.random() < 0.4
    elif kind in ("link", "hardlink"):
        op["dest"] = rpath(rng, m, 0.8)
    return op


def apply(m, op):
    """Apply on the model: returns the expected result path or raises Refused/Discard"""
    kind, p = op["op"], op["path"]
    if m.ancestor_file(p):
        raise Discard
    node = m.lget(p)
    target, real = m.resolve(p)
    if node is not None and node[0] == "l" and target is None and kind in ("mkdir", "mkfile", "overwrite"):
        raise Discard  # creation through a broken link
    if kind == "mkdir":
        if target is not None:
            if not op["force"]:
                raise Refused(fs.AlreadyExists)
            if target[0] == "f":
                raise Refused(fs.NotADirectory)
            return p
        parent, _ = m.resolve(p[:-1])
        if parent is None and not op["recursive"]:
            raise Refused(fs.MissingParentDirectory)
        m.mkdirs(p)
        return p
    if kind in ("mkfile", "overwrite"):
        parent, _ = m.resolve(p[:-1])
        if parent is None:
            raise Refused(fs.MissingParentDirectory if m.h5 else fs.Missing)
        if target is not None and target[0] == "d":
            raise Refused(fs.NotAFile)
        if target is not None:
            if m.h5:
                # replaced under this name only
                if node[0] == "l":
                    raise Discard
                m.put(p, ["f", [op["data"]]])
            elif op.get("append"):
                # a device in append mode never truncates
                target[1][0] += op["data"]
            else:
                target[1][0] = op["data"]
        else:
            m.put(p, ["f", [op["data"]]])
        return p
    if kind == "remove":
        if node is None:
            return None
        if node[0] == "l":
            if op["recursive"]:
                dest = m.target(link_real(m, p), node[1])
                if p[: len(dest)] == dest or m.through_link(p):
                    raise Discard
                if m.lget(dest) is not None:
                    if not dest or m.ancestor_file(dest):
                        raise Discard
                    apply(m, {"op": "remove", "path": dest, "recursive": True})
                    if m.lget(p) is None:
                        raise Discard
            m.unlink(p)
            return None
        if node[0] == "d" and not op["recursive"] and node[1]:
            raise Refused(fs.DirectoryIsNotEmpty)
        m.unlink(p)
        return None
    if kind == "link":
        if node is not None or m.resolve(p[:-1])[0] is None or m.through_link(p):
            raise Discard
        dest = op["dest"]
        if not dest or m.through_link(dest) or m.ancestor_file(dest) or p[: len(dest)] == dest:
            raise Discard
        m.put(p, ["l", m.text(p, dest)])
        return p
    if kind == "hardlink":
        n = m.lget(op["dest"])
        if node is not None or m.resolve(p[:-1])[0] is None or n is None or n[0] != "f":
            raise Discard
        m.put(p, n)
        return p
    # move, rename and copy
    if node is None:
        raise Discard
    dest = op["dest"]
    if m.ancestor_file(dest):
        raise Discard
    dnode, _ = m.resolve(dest)
    if dnode is not None and dnode[0] == "d" and kind != "rename":
        dest = dest + (p[-1],)
        if m.ancestor_file(dest):
            raise Discard
    if not dest or dest[: len(p)] == p or p[: len(dest)] == dest:
        raise Discard
    lnode = m.lget(dest)
    dnode, dreal = m.resolve(dest)
    if dreal is not None and (dreal[: len(real or ())] == (real or (0,)) or (real or ())[: len(dreal)] == dreal):
        raise Discard
    dparent = m.resolve(dest[:-1])[1]
    if dparent is not None and real is not None and dparent[: len(real)] == real:
        raise Discard  # into itself
    if m.through_link(p) or m.through_link(dest):
        if node[0] != "f":
            raise Discard
        # same node reached along two names
        if dnode is not None and dnode is target:
            raise Discard
    if lnode is not None and lnode[0] == "l":
        raise Discard
    if dnode is not None:
        if not op["force"]:
            raise Refused(fs.AlreadyExists)
        if dnode is node or (dnode[0] == "f" and node[0] == "f" and dnode[1] is node[1]):
            raise Discard
        m.unlink(dest)
    if node[0] == "l" and kind != "copy" and dest[:-1] != p[:-1]:
        raise Discard  # a relative link means something else elsewhere
    m.mkdirs(dest[:-1])
    if m.lget(p) is None:
        raise Discard
    if kind == "copy":
        if node[0] == "l" and not op["follow"]:
            m.put(dest, ["l", m.text(dest, m.target(p, node[1]))])
        else:
            if target is None or m.lget(p) is None:
                raise Discard
            if m.resolve(p)[0] is None:
                raise Discard
            if node[0] == "l" and m.links_in(target):
                raise Discard
            m.put(dest, m.dup(target, real, op["dereference"], 0, m.resolve(dest[:-1])[1] + dest[-1:]))
            if not op["dereference"]:
                m.relink(p, dest)
    else:
        m.put(dest, m.unlink(p))
        m.relink(p, dest)
    return dest


def link_real(m, p):
    """real path of a link itself"""
    return p


# ------------------------------------------------------------------ real system
class Real:
    def __init__(self, c, kind, rng):
        self.kind = kind
        self.h5 = kind != "local"
        if kind == "local":
            self.rootname = os.path.join(c.dir, "root")
            os.mkdir(self.rootname)
            self.mode = rng.choice(["a+", "w", "w+", "a"])
            self.root = localfs.Path(self.rootname, mode=self.mode)
        else:
            self.rootname = os.path.join(c.dir, "root.h5")
            cls = h5fs.Path if kind == "h5" else nxfs.Path
            self.root = cls("/", h5file=self.rootname)
            with h5py.File(self.rootname, "w"):
                pass
        self.rootloc = self.root.location

    def path(self, parts, rng=None):
        if rng is None or rng.random() < 0.5:
            return self.root["/".join(parts)] if parts else self.root
        k = rng.random()
        if k < 0.4:
            p = self.root
            for x in parts:
                p = p[x]
            return p
        if k < 0.7:
            return self.root["/".join(("zz", "..") + parts)]
        loc = self.rootloc.rstrip("/") + "/" + "/".join(parts)
        return type(self.root)(loc, **({} if self.h5 else {"mode": self.mode}))

    def loc(self, parts):
        return self.rootloc.rstrip("/") + "/" + "/".join(parts) if parts else self.rootloc

    def apply(self, op, rng):
        p = self.path(op["path"], rng)
        k = op["op"]
        if k == "mkdir":
            return p.mkdir(recursive=op["recursive"], force=op["force"])
        if k in ("mkfile", "overwrite"):
            if rng.random() < 0.5 and not self.h5:
                return p.write(op["data"], mode=rng.choice(["w", "w+"]))
            return p.mkfile(data=op["data"], mode="w")
        if k == "remove":
            return (p.rm if rng.random() < 0.3 else p.remove)(recursive=op["recursive"])
        d = self.path(op["dest"], rng)
        bare = rng.random() < 0.5  # options which have their default value are left out
        if k == "link":
            return p.link(d)
        if k == "hardlink":
            return p.link(d, soft=False)
        if k == "move":
            return (p.mv if rng.random() < 0.3 else p.move)(d, **given(bare, force=op["force"]))
        if k == "rename":
            return p.rename(d, **given(bare, force=op["force"]))
        return (p.cp if rng.random() < 0.3 else p.copy)(
            d, **given(bare, force=op["force"], follow=op["follow"], dereference=op["dereference"])
        )

    # independent observation of the raw tree
    def raw(self):
        if self.h5:
            out = {}

            def visit(g, path):
                for k in g.keys():
                    lnk = g.get(k, getlink=True)
                    if isinstance(lnk, h5py.SoftLink):
                        t = lnk.path
                        out[path + (k,)] = ("l", t)
                    elif isinstance(lnk, h5py.ExternalLink):
                        out[path + (k,)] = ("x", lnk.filename, lnk.path)
                    else:
                        n = g[k]
                        if isinstance(n, h5py.Group):
                            out[path + (k,)] = ("d",)
                            visit(n, path + (k,))
                        else:
                            v = n[()]
                            out[path + (k,)] = ("f", v.decode() if isinstance(v, bytes) else v)

            with h5py.File(self.rootname, "r", locking=False) as f:
                visit(f, ())
            return out
        out = {}

        def visit(d, path):
            for k in os.listdir(d):
                full = os.path.join(d, k)
                if os.path.islink(full):
                    out[path + (k,)] = ("l", os.readlink(full))
                elif os.path.isdir(full):
                    out[path + (k,)] = ("d",)
                    visit(full, path + (k,))
                else:
                    with open(full) as f:
                        out[path + (k,)] = ("f", f.read())

        visit(self.rootname, ())
        return out


def model_raw(m):
    out = {}
    for p, n in m.walk():
        if not p:
            continue
        if n[0] == "d":
            out[p] = ("d",)
        elif n[0] == "f":
            out[p] = ("f", n[1][0])
        else:
            out[p] = ("l", m.target(p, n[1]))
    return out


def normal_raw(real, raw):
    """link texts to target paths"""
    out = {}
    for p, v in raw.items():
        if v[0] == "l":
            t = v[1]
            if t.startswith("/"):
                if not real.h5:
                    t = os.path.relpath(t, real.rootname)
                    parts = tuple(t.split("/"))
                else:
                    parts = tuple(x for x in t.split("/") if x)
            else:
                parts = os.path.normpath("/".join(("",) + p[:-1] + (t,)))
                parts = tuple(x for x in parts.split("/") if x)
            v = ("l", parts)
        out[p] = v
    return out


def observe(c, real, m, rng, paths):
    for p in paths:
        node = m.lget(p)
        target, _ = m.resolve(p)
        path = real.path(p, rng)
        tag = real.kind
        c.require(str(path) == real.loc(p) and path == real.path(p), tag + ":location", lambda: (str(path), real.loc(p)))
        c.require(path.name == (p[-1] if p else path.name), tag + ":name", lambda: (p, path.name))
        c.require(not p or path.parent == real.path(p[:-1]), tag + ":parent", lambda: (p, path.parent))
        c.require(path.exists == (target is not None), tag + ":exists", lambda: (p, node, target))
        c.require(path.isdir == (target is not None and target[0] == "d"), tag + ":isdir", lambda: (p, node, target))
        c.require(path.isfile == (target is not None and target[0] == "f"), tag + ":isfile", lambda: (p, node, target))
        if not m.through_link(p) or target is not None:
            c.require(path.lexists == (node is not None), tag + ":lexists", lambda: (p, node, target))
        if p and (node is None or node[0] != "l" or target is not None):
            c.require((p[-1] in real.path(p[:-1])) == (target is not None), tag + ":contains", lambda: (p, node))
        if target is not None and target[0] == "f":
            got = path.read()
            c.require(got == target[1][0], tag + ":read", lambda: (p, got, target))
        if target is not None and target[0] == "d":
            names = [x.name for x in path.listdir()]
            c.require(sorted(names) == sorted(target[1]), tag + ":listdir", lambda: (p, names, sorted(target[1])))
            names = [x.path for x in path]
            c.require(sorted(names) == sorted(real.path(p + (k,)).path for k in target[1]), tag + ":iter", lambda: (p, names))
        if node is not None and not m.through_link(p):
            c.require(path.islink == (node[0] == "l"), tag + ":islink", lambda: (p, node))
            ld = path.linkdest()
            if node[0] == "l":
                first = m.target(p, node[1])
                c.require(ld == real.path(first), tag + ":linkdest", lambda: (p, node, ld))
                last = first
                while True:
                    n = m.lget(last)
                    if n is None or n[0] != "l" or m.through_link(last):
                        break
                    last = m.target(last, n[1])
                if not m.through_link(last):
                    ld = path.linkdest(follow=True)
                    c.require(ld == real.path(last), tag + ":linkdest_follow", lambda: (p, node, ld))
            else:
                c.require(ld is None, tag + ":linkdest_none", lambda: (p, node, ld))
        if target is not None and target[0] == "d":
            for name in (rng.choice(NAMES), "zz"):
                new = path.nonexisting_name(name)
                exp = name
                if m.resolve(p + (name,))[0] is not None:
                    base, i = name, 1
                    if name == "e(1)":
                        base, i = "e", 2
                    while m.resolve(p + ("{}({})".format(base, i),))[0] is not None:
                        i += 1
                    exp = "{}({})".format(base, i)
                c.require(new == exp, tag + ":nonexisting_name", lambda: (p, name, new, exp))
        c.event("paths_observed")


def given(bare, **options):
    return {k: v for k, v in options.items() if v or not bare}


def tree_of(t):
    path, lst = t
    return (path.name, None if lst is None else sorted((tree_of(x) for x in lst), key=repr))


def mtree(m, parts, depth=0, left=None, limit=None, files=True):
    left = [500] if left is None else left
    left[0] -= 1
    if left[0] < 0:
        raise Discard  # links to each other: many names for the same nodes
    n, real = m.resolve(parts)
    if depth > 12:
        raise Discard
    if n is None or n[0] != "d":
        return (parts[-1] if parts else "", None) if files else None
    if limit is not None and depth > limit:
        return (parts[-1] if parts else "", None)
    lst = (mtree(m, parts + (k,), depth + 1, left, limit, files) for k in n[1])
    return (parts[-1] if parts else "", sorted((x for x in lst if x), key=repr))


def link_script(rng):
    """links in, out of and next to a group which is moved or copied to another depth"""
    top = rng.choice([(), ("b",), ("b", "d d")])
    g = top + ("a",)
    inside = [g + ("b",), g + ("b", "c.txt"), g + ("c.txt",), g + ("ab", "b")]
    outside = [top + ("ab",), top + ("ab", "c.txt"), top + ("a b", "é"), ("é",)]
    for p in (g + ("b",), g + ("ab",), top + ("ab",), top + ("a b",)):
        yield {"op": "mkdir", "path": p, "recursive": True, "force": True}
    for p in (inside[1:] + outside[1:]):
        yield {"op": "mkfile", "path": p, "data": "data{}".format(rng.randint(0, 10**6))}
    for i in range(rng.randint(1, 3)):
        base = rng.choice([g, g + ("b",), g + ("ab",)])
        yield {"op": "link", "path": base + ("l%d" % i,), "dest": rng.choice(inside + outside)}
    for _ in range(rng.randint(1, 2)):
        dest = rng.choice([(), ("n",), ("n", "m"), top, top + ("n",)]) + (rng.choice(["z", "aa", "q"]),)
        kind = rng.choice(["move", "copy", "rename"])
        op = {"op": kind, "path": g, "dest": dest, "force": rng.random() < 0.3}
        if kind == "copy":
            op.update(follow=rng.random() < 0.4, dereference=rng.random() < 0.2)
        yield op
        if kind != "copy":
            g = dest


def history(kind, script=None):
    def func(c, rng):
        real = Real(c, kind, rng)
        m = Model(real.h5)
        nops = rng.randint(6, 30 if kind == "local" else 18)
        changed, log = 0, []
        todo = list(script(rng)) if script else []
        if script:
            nops = len(todo) + rng.randint(0, 3)
        for _ in range(nops):
            for _try in range(40):
                new = m.copy()
                try:
                    op = todo.pop(0) if todo else gen(rng, m)
                    if "data" in op and kind == "local":
                        op["append"] = real.mode.startswith("a")
                    try:
                        expect, err = apply(new, op), None
                    except Refused as e:
                        new, expect, err = m.copy(), None, e.classes
                    new.check_cycles()
                    break
                except Discard:
                    continue
            else:
                continue
            before = None
            log.append(op)
            try:
                ret = real.apply(op, rng)
            except Exception as e:
                c.require(
                    err is not None and isinstance(e, err),
                    "{}:{}:error".format(kind, op["op"]),
                    lambda: "{} raised {!r}, expected {}\nhistory {}".format(op, e, err, log),
                )
                c.event("refused")
            else:
                c.require(
                    err is None,
                    "{}:{}:not_refused".format(kind, op["op"]),
                    lambda: "{} returned {!r}, expected {}\nhistory {}".format(op, ret, err, log),
                )
                if op["op"] in ("move", "rename", "copy", "mkdir", "mkfile", "link"):
                    c.require(
                        ret == real.path(expect),
                        "{}:{}:result".format(kind, op["op"]),
                        lambda: "{} returned {!r}, expected {}\nhistory {}".format(op, ret, expect, log),
                    )
                changed += 1
                c.event(op["op"])
            m = new
            got = normal_raw(real, real.raw())
            exp = model_raw(m)
            c.require(
                got == exp,
                "{}:{}:state".format(kind, op["op"]),
                lambda: "after {}\n got {}\n exp {}\nhistory {}".format(op, got, exp, log),
            )
            paths = [op["path"]] + ([op["dest"]] if "dest" in op else []) + [rpath(rng, m, 0.7)]
            if real.h5 and rng.random() < 0.5:
                paths = paths[:1]
            observe(c, real, m, rng, [p for p in paths if not m.ancestor_file(p)])
        allpaths = [p for p, _ in m.walk()]
        observe(c, real, m, rng, allpaths if not real.h5 else rng.sample(allpaths, min(len(allpaths), 6)))
        try:
            e = mtree(m, ())
        except Discard:
            c.event("no_finite_tree")
        else:
            t = tree_of(real.root.tree())
            c.require(t[1] == e[1], kind + ":tree", lambda: (t, e))
            real.root.strtree(stats=kind == "local")
            limit, files = rng.choice([0, 0, 1, 2, 3]), rng.random() < 0.6
            e = mtree(m, (), limit=limit, files=files)
            t = tree_of(real.root.tree(recursive=False, depth=limit, files=files))
            c.require(t[1] == e[1], kind + ":tree:limited", lambda: (limit, files, t, e))
            c.event("limited_trees")
        if changed < 3:
            c.trivial()
        c.key(kind, log)
        c.sample(log)

    return func


def ancestor_link(c, rng):
    """links to an ancestor directory (cyclic trees) survive move and copy"""
    kind = rng.choice(["local", "h5", "nx"])
    real = Real(c, kind, rng)
    root = real.root
    a = root["a"].mkdir()
    sub = a["s"].mkdir()
    sub["f.txt"].mkfile(data="x", mode="w")
    host = rng.choice([a, sub])
    host["up"].link(a if host is sub or kind != "local" else a)
    root["other"].mkdir()
    root["other"]["into"].link(sub)
    sub["out"].link(root["other"])
    op = rng.choice(["move", "copy", "rename"])
    dest = getattr(a, op)(root["b"])
    c.require(dest == root["b"], kind + ":cyclic:result", lambda: dest)
    c.require(root["b/s/f.txt"].read() == "x", kind + ":cyclic:content")
    c.require(a.exists == (op == "copy"), kind + ":cyclic:source")
    into = root["other/into"]
    c.require(into.linkdest() == root["a/s"], kind + ":cyclic:outside_link", lambda: into.linkdest())
    c.event("cyclic_trees")
    c.key(kind, op, host.name)


def attributes(c, rng):
    """HDF5 node attributes behave as a dictionary"""
    kind = rng.choice(["h5", "nx"])
    real = Real(c, kind, rng)
    g = real.root["g"].mkdir()
    d = g["d"].mkfile(data=np.arange(3), mode="w")
    lnk = real.root["lnk"].link(d)
    state = {"g": {}, "d": {}}
    for _ in range(rng.randint(3, 14)):
        key = rng.choice(["a", "b", "é", "signal", "units"])
        which, node = rng.choice([("g", g), ("d", d), ("d", lnk)])
        op = rng.choice(["update", "open", "pop", "get"])
        val = rng.choice(["text", "né", 5, 2.5, [1, 2], ["x", "yy"], True])
        if op == "update":
            node.update_stats(**{key: val})
            state[which][key] = val
        elif op == "open":
            with node.openstats() as stats:
                stats[key] = val if not isinstance(val, list) else str(val[0])
            state[which][key] = val if not isinstance(val, list) else str(val[0])
        elif op == "pop":
            v = node.pop_stat(key, default=None)
            e = state[which].pop(key, None)
            c.require(np.array_equal(np.asarray(v, dtype=object), np.asarray(e, dtype=object)), kind + ":pop_stat", lambda: (key, v, e))
        else:
            v = node.get_stat(key, default="nope")
            e = state[which].get(key, "nope")
            c.require(np.array_equal(np.asarray(v, dtype=object), np.asarray(e, dtype=object)), kind + ":get_stat", lambda: (key, v, e))
        for w, n in (("g", g), ("d", d)):
            s = n.stats()
            e = state[w]
            c.require(set(s) == set(e), kind + ":stats_keys", lambda: (s, e))
            for k in e:
                c.require(np.array_equal(np.asarray(s[k], dtype=object), np.asarray(e[k], dtype=object)), kind + ":stats", lambda: (k, s, e))
        c.event("attribute_states")
    c.key(kind, repr(state))


GROUPS = [
    Group("local", history("local"), 500, 8000),
    Group("hdf5", history("h5"), 400, 3000),
    Group("nexus", history("nx"), 160, 1500),
    Group("hdf5_links", history("h5", link_script), 160, 3000),
    Group("nexus_links", history("nx", link_script), 50, 1000),
    Group("local_links", history("local", link_script), 60, 1000),
    Group("cyclic", ancestor_link, 40, 200),
    Group("attributes", attributes, 60, 1500),
]
