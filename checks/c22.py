"""Image transformations form a group that acts consistently on coordinates, matrices, parameters and images."""
import copy
import numpy as np
from lib.vp import Group, Discard
from spectrocrunch.align.transform import transform
from spectrocrunch.align.types import transformationType as T

ID = "C22"
LEVEL = "exploration"
RULE = (
    "random transformations of the 5 types through every setter, histories of up to 6 compositions, inversions, frame changes "
    "and copies (in place or not) next to 3x3 matrices; images that are linear functions of the coordinates (exact under "
    "interpolation); key points without noise; non-trivial: a transformation that is not the identity"
)
TYPES = ["translation", "rigid", "similarity", "affine", "projective"]


def rmatrix(rng, t, scale=1.0):
    """3x3 change-of-frame"""
    M = np.identity(3)
    M[:2, 2] = [rng.choice([0, rng.randint(-5, 5), rng.uniform(-5, 5)]) * scale for _ in range(2)]
    th = rng.uniform(-np.pi, np.pi) if rng.random() < 0.5 else rng.uniform(-0.3, 0.3)
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    if t == "rigid":
        M[:2, :2] = R
    elif t == "similarity":
        M[:2, :2] = R * rng.uniform(0.6, 1.6)
    elif t in ("affine", "projective"):
        M[:2, :2] = R @ np.array([[rng.uniform(0.7, 1.4), rng.uniform(-0.4, 0.4)], [0, rng.uniform(0.7, 1.4)]])
    if t == "projective":
        M[2, :2] = [rng.uniform(-0.01, 0.01) for _ in range(2)]
    return M, th


def make(c, rng, t):
    """Transformation of type t by one of its setters, and its matrix"""
    M, th = rmatrix(rng, t)
    obj = transform(getattr(T, t))
    setter = {
        "translation": ["settranslation", "settranslation2"],
        "rigid": ["setrigid", "setaffine", "setlinear"],
        "similarity": ["setaffine", "setlinear"],
        "affine": ["setaffine", "setlinear"],
        "projective": ["setprojective"],
    }[t]
    s = rng.choice(setter)
    arg = rng.choice([np.asarray, lambda a: np.asarray(a).tolist()])
    if s == "settranslation":
        obj.settranslation(arg(M[:2, 2]))
    elif s == "settranslation2":
        obj.settranslation(M[0, 2], M[1, 2])
    elif s == "setrigid":
        obj.setrigid(th, M[0, 2], M[1, 2])
    elif s == "setaffine":
        obj.setaffine(arg(M[:2]))
    elif s == "setlinear":
        if rng.random() < 0.5:
            obj.setlinear(arg(M[:2, :2]))
            obj.settranslation(arg(M[:2, 2]))
        else:
            obj.settranslation(arg(M[:2, 2]))
            obj.setlinear(arg(M[:2, :2]))
    else:
        obj.setprojective(arg(M))
    c.event("set")
    return obj, M, th, s


def promote(c, rng):
    """Set a transformation of another (lower) type"""
    t0 = rng.choice(TYPES)
    obj, M, th, _ = make(c, rng, t0)
    old = M.copy()
    what = rng.choice(["rigid", "linear", "affine", "projective", "translation", "identity"])
    N, nth = rmatrix(rng, {"rigid": "rigid", "linear": "similarity" if t0 == "similarity" else "affine", "affine": "affine", "projective": "projective"}.get(what, "translation"))
    if what in ("linear", "affine", "projective") and t0 == "rigid" and what != "projective":
        N, nth = rmatrix(rng, "rigid")
    if what == "affine" and t0 == "similarity":
        N, nth = rmatrix(rng, "similarity")
    e = old.copy()
    if what == "rigid":
        if t0 == "projective":
            raise Discard()
        obj.setrigid(nth, N[0, 2], N[1, 2])
        e = N
        th, tx, ty = obj.getrigid()
        c.require(abs(np.exp(1j * th) - np.exp(1j * nth)) < 1e-6 and np.allclose([tx, ty], N[:2, 2]), "setrigid", lambda: (t0, nth, th))
    elif what == "linear":
        obj.setlinear(N[:2, :2])
        e[:2, :2] = N[:2, :2]
    elif what == "affine":
        obj.setaffine(N[:2])
        e[:2] = N[:2]
    elif what == "projective":
        obj.setprojective(N)
        e = N
    elif what == "translation":
        obj.settranslation(N[:2, 2])
        e[:2, 2] = N[:2, 2]
    else:
        obj.setidentity()
        e = np.identity(3)
        c.require(obj.isidentity() and obj.islinearidentity() and obj.isprojidentity(), "identity", lambda: t0)
    c.key("promote", t0, what, repr(e))
    check_matrix(c, rng, obj, e, (t0, what))


def check_matrix(c, rng, obj, M, info):
    """Every view of the transformation agrees with the matrix"""
    got = obj.getnumpyhomography()
    c.require(np.shape(got) == (3, 3) and np.allclose(got, M), "matrix", lambda: (info, got, M))
    c.require(np.allclose(obj.getprojective(), M), "projective", lambda: (info, obj.getprojective(), M))
    c.require(np.allclose(obj.gettranslation(), M[:2, 2]), "translation", lambda: (info, obj.gettranslation(), M))
    c.require(np.allclose(obj.getlinear(), M[:2, :2]), "linear", lambda: (info, obj.getlinear(), M))
    a = obj.getaffine()
    c.require(np.shape(a) == (2, 3) and np.allclose(a, M[:2]), "affine", lambda: (info, a, M))
    c.require(obj.isidentity() == np.array_equal(got, np.identity(3)), "isidentity", lambda: (info, M))
    if obj.transfotype == T.rigid and np.linalg.det(M[:2, :2]) > 0:
        th, tx, ty = obj.getrigid()
        c.require(
            abs(np.exp(1j * th) - np.exp(1j * np.arctan2(M[1, 0], M[0, 0]))) < 1e-6 and np.allclose([tx, ty], M[:2, 2]),
            "rigid",
            lambda: (info, th, tx, ty, M),
        )
    # coordinates: old = C.new
    n = rng.randint(1, 5)
    xy = np.vstack([c.np.uniform(-10, 10, (2, n)), np.ones(n)])
    if rng.random() < 0.3:
        xy = xy[:, 0]
    keep = xy.copy()
    old = obj.transformcoordinatesinverse(xy)
    new = obj.transformcoordinates(xy)
    hom = lambda v: v[:2] / v[2]
    e = M @ keep
    c.require(np.allclose(hom(old), hom(e)), "coordinates_inverse", lambda: (info, old, e))
    c.require(np.allclose(hom(obj.transformcoordinates(old)), hom(keep)), "coordinates_roundtrip", lambda: (info, M, keep))
    e2 = np.linalg.solve(M, keep)
    c.require(np.allclose(hom(new), hom(e2)), "coordinates", lambda: (info, new, e2))
    c.require(np.array_equal(xy, keep), "coordinates_modified", info)
    c.event("views")


RANK = {t: i for i, t in enumerate(TYPES)}


def algebra(c, rng):
    """Histories"""
    n = rng.randint(2, 4)
    objs = []
    log = []
    for _ in range(n):
        t = rng.choice(TYPES)
        o, M, _, s = make(c, rng, t)
        objs.append([o, M, t])
        log.append((t, s, M.tolist()))
        check_matrix(c, rng, o, M, log)
    c.key("algebra", repr(log))
    for _ in range(rng.randint(1, 6)):
        i, j = rng.randrange(len(objs)), rng.randrange(len(objs))
        op = rng.choice(["before", "after", "before_inplace", "after_inplace", "inverse", "inverse_inplace", "new_frame", "new_frame_inplace", "copy", "fromtransform", "settranslation", "setidentity"])
        o, M, t = objs[i]
        p, N, u = objs[j]
        if i == j and op.endswith("inplace") and op != "inverse_inplace":
            continue
        log.append((op, i, j))
        mx = max(t, u, key=RANK.get)
        if op == "before":
            objs.append([o.before(p), M @ N, mx])
        elif op == "after":
            objs.append([o.after(p), N @ M, mx])
        elif op == "before_inplace":
            o.before_inplace(p)
            objs[i][1:] = [M @ N, mx]
        elif op == "after_inplace":
            o.after_inplace(p)
            objs[i][1:] = [N @ M, mx]
        elif op == "inverse":
            objs.append([o.inverse(), np.linalg.inv(M), t])
        elif op == "inverse_inplace":
            o.inverse_inplace()
            objs[i][1] = np.linalg.inv(M)
        elif op == "new_frame":
            objs.append([o.new_frame(p), np.linalg.inv(N) @ M @ N, mx])
        elif op == "new_frame_inplace":
            o.new_frame_inplace(p)
            objs[i][1:] = [np.linalg.inv(N) @ M @ N, mx]
        elif op == "copy":
            objs.append([o.copy() if rng.random() < 0.5 else copy.copy(o), M.copy(), t])
        elif op == "fromtransform":
            o.fromtransform(p)
            objs[i][1:] = [N.copy(), u]
        elif op == "settranslation":
            v = c.np.uniform(-3, 3, 2)
            o.settranslation(v)
            objs[i][1] = M.copy()
            objs[i][1][:2, 2] = v
        else:
            o.setidentity()
            objs[i][1] = np.identity(3)
        c.event("operations")
        # everything, also what was not involved
        for o, M, t in objs:
            if np.abs(M).max() > 1e4 or np.linalg.cond(M) > 1e6:
                raise Discard()
            norm = o.getnumpyhomography()
            c.require(np.allclose(norm, M, rtol=1e-6, atol=1e-8), "history:" + op, lambda: (log, norm, M))
            c.require(o.transfotype == getattr(T, t), "history:type", lambda: (log, o.transfotype, t))
    o, M, t = rng.choice(objs)
    check_matrix(c, rng, o, M, log)


def image(c, rng):
    """out(new) = in(C.new)"""
    t = rng.choice(TYPES[:4])
    o, M, _, s = make(c, rng, t)
    hist = rng.choice([0, 0, 1])
    if hist:
        p, N, _, _ = make(c, rng, rng.choice(TYPES[:4]))
        o, M = (o.before(p), M @ N) if rng.random() < 0.5 else (o.inverse(), np.linalg.inv(M))
    shape = rng.randint(6, 14), rng.randint(6, 14)
    y, x = np.indices(shape).astype(float)
    a, b, d = c.np.uniform(-2, 2, 3)
    img = a * x + b * y + d
    keep = img.copy()
    dt = rng.choice([float, float, np.float32])
    img = img.astype(dt)
    out = o.transformimage(img)
    xo = M[0, 0] * x + M[0, 1] * y + M[0, 2]
    yo = M[1, 0] * x + M[1, 1] * y + M[1, 2]
    m = 1e-6
    ok = (xo >= m) & (xo <= shape[1] - 1 - m) & (yo >= m) & (yo <= shape[0] - 1 - m)
    bad = (xo < -m) | (xo > shape[1] - 1 + m) | (yo < -m) | (yo > shape[0] - 1 + m)
    e = a * xo + b * yo + d
    info = lambda: (t, s, hist, M, shape, out, e)
    c.require(out.shape == img.shape, "image:shape", info)
    c.require(np.allclose(out[ok], e[ok], atol=1e-3, rtol=1e-3), "image:values", info)
    c.require(np.isnan(out[bad]).all(), "image:missing", info)
    c.require(np.array_equal(img, keep.astype(dt)), "image:modified", info)
    c.event("pixels", int(ok.sum()))
    c.event("images")
    if np.array_equal(M, np.identity(3)):
        c.trivial()
    c.key("image", repr(M), shape)


def keypoints(c, rng):
    t = rng.choice(TYPES[:4])
    M, th = rmatrix(rng, t, scale=rng.choice([1, 10]))
    n = rng.choice([3, 4, 5, 8, 10, 11, 20, 50])
    dest = c.np.uniform(-20, 20, (2, n))
    if rng.random() < 0.2:
        dest = np.round(dest)
    if np.linalg.matrix_rank(np.vstack([dest, np.ones(n)]), tol=1) < 3:
        raise Discard()
    src = M[:2, :2] @ dest + M[:2, 2:]
    o = transform(getattr(T, t))
    if rng.random() < 0.3:
        o.settranslation(3, 4)
    o.fromkeypoints(src[0], src[1], dest[0], dest[1])
    got = o.getnumpyhomography()
    c.require(np.allclose(got, M, atol=1e-6), "keypoints:" + t, lambda: (t, n, M, got))
    # src -> dest
    h = np.vstack([src, np.ones(n)])
    c.require(np.allclose(o.transformcoordinates(h)[:2], dest, atol=1e-5), "keypoints:map", lambda: (t, n, M, got))
    c.event("keypoints", n)
    c.key("keypoints", repr(M), n)


GROUPS = [
    Group("set", promote, 2000, 40000),
    Group("algebra", algebra, 3000, 60000),
    Group("image", image, 2000, 40000),
    Group("keypoints", keypoints, 2000, 40000),
]
MIN_EVENTS = {"operations": 2000, "views": 4000, "images": 800, "keypoints": 4000}
