"""Composed operators are the composition of the functions they stand for; inverses undo them."""
import numpy as np
from lib.vp import Group, Discard
from spectrocrunch.math import linop
from spectrocrunch.utils import units

ID = "C18"
LEVEL = "exploration"
RULE = (
    "random operators (identity, linear, clip, nan-clip, user function; limits open, equal or crossing; with and without "
    "units) composed in random association up to 6 factors; evaluated on scalars and arrays and compared with the plain "
    "functions applied one after the other; powers, inverses, equality; operands must not change; non-trivial: 2+ factors"
)

M = [1, -1, 2, -2, 0.5, -0.5, 4, -4]


def rand_op(rng):
    """(operator, function, inverse on valid values, description)"""
    k = rng.choice(["id", "lin", "lin", "lin", "clip", "clip", "nclip", "lambda"])
    if k == "id":
        return linop.Identity(), ("id",)
    if k == "lin":
        m, b = rng.choice(M), rng.randint(-8, 8) / 2
        if rng.random() < 0.3:
            b = int(b)
        return linop.LinearOperator(m, b), ("lin", m, b)
    if k == "lambda":
        return linop.Lambda("dec3", "inc3", lambda x: x - 3, lambda x: x + 3), ("lin", 1, -3)
    lo, hi = sorted(rng.randint(-12, 12) / 2 for _ in range(2))
    r = rng.random()
    if r < 0.2:
        lo = None
    elif r < 0.4:
        hi = None
    elif r < 0.45:
        lo = hi = None
    elif r < 0.5:
        lo = hi
    cls = linop.Clip if k == "clip" else linop.NaNClip
    return cls(lo, hi), (k, lo, hi)


def apply(desc, x):
    """(value, untouched by clipping)"""
    k = desc[0]
    if k == "id" or x != x:
        return x, True
    if k == "lin":
        return desc[1] * x + desc[2], True
    lo, hi = desc[1:]
    if lo is not None and x < lo:
        return (lo if k == "clip" else np.nan), False
    if hi is not None and x > hi:
        return (hi if k == "clip" else np.nan), False
    return x, True


def compose(rng, ops):
    """ops[0]*ops[1]*... in random association"""
    ops = list(ops)
    while len(ops) > 1:
        i = rng.randrange(len(ops) - 1)
        a, b = ops[i], ops[i + 1]
        ops[i : i + 2] = [a * b]
    return ops[0]


def same(a, b):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=1e-9, equal_nan=True)


def composition(c, rng):
    n = rng.randint(1, 6)
    pairs = [rand_op(rng) for _ in range(n)]
    ops = [p[0] for p in pairs]
    descs = [p[1] for p in pairs]
    x = np.array([rng.randint(-80, 80) / 4 for _ in range(12)] + [np.nan])
    # operands before
    before = [np.asarray(o(x.copy()), float) for o in ops]
    F = compose(rng, ops)
    info = lambda: (descs, str(F))
    expected, free = [], []
    for v in x:
        ok = True
        for d in reversed(descs):
            v, f = apply(d, v)
            ok &= f
        expected.append(v)
        free.append(ok)
    expected = np.array(expected)
    xin = x.copy()
    got = F(xin)
    c.require(np.array_equal(xin, x, equal_nan=True), "composition:argument_modified", info)
    c.require(np.shape(got) == x.shape and same(got, expected), "composition:array", lambda: (info(), x, got, expected))
    i = rng.randrange(12)
    got = F(float(x[i]))
    c.require(np.ndim(got) == 0 and same(got, expected[i]), "composition:scalar", lambda: (info(), x[i], got, expected[i]))
    after = [np.asarray(o(x.copy()), float) for o in ops]
    c.require(all(same(a, b) for a, b in zip(before, after)), "composition:operand_changed", info)
    free = np.array(free)
    inv = F.inverse
    back = np.asarray(inv(expected.copy()), float)
    c.require(same(back[free], x[free]), "inverse:left", lambda: (info(), str(inv), x, expected, back, free))
    # operands still the same after inversion
    after = [np.asarray(o(x.copy()), float) for o in ops]
    c.require(all(same(a, b) for a, b in zip(before, after)), "inverse:operand_changed", info)
    if isinstance(F, linop.LinearOperator):
        p = rng.randint(0, 3)
        ref = []
        for v in x:
            for d in list(reversed(descs)) * p:
                v, _ = apply(d, v)
            ref.append(v)
        got = (F**p)(x.copy())
        c.require(same(got, ref), "composition:power", lambda: (info(), p, x, got, ref))
    # equal operators are equal functions
    G = compose(rng, ops)
    pairs2 = [rand_op(rng) for _ in range(rng.randint(1, 2))]
    H = compose(rng, [p[0] for p in pairs2])
    for K in (G, H, compose(rng, ops + [p[0] for p in pairs2]), compose(rng, ops[:-1]) if n > 1 else H):
        if F == K:
            c.require(same(K(x.copy()), expected), "equality:different_functions", lambda: (info(), str(K)))
            c.event("equal")
        c.require((F == K) != (F != K), "equality:consistent", info)
    c.event("values", len(x))
    c.event("inverted", int(free.sum()))
    if n == 1:
        c.trivial()
    c.key(repr(descs), F.__class__.__name__)


def linear(c, rng):
    m, b = rng.choice(M), rng.randint(-8, 8) / 2
    op = linop.LinearOperator(m, b)
    x = np.array([rng.randint(-80, 80) / 4 for _ in range(6)])
    p = rng.randint(0, 5)
    ref = x
    for _ in range(p):
        ref = m * ref + b
    got = (op**p)(x)
    c.require(same(got, ref), "power", lambda: (m, b, p, got, ref))
    c.require(op == linop.LinearOperator(m, b) and op != linop.LinearOperator(m + 1, b) and op != linop.LinearOperator(m, b + 1), "equality:linear", lambda: (m, b))
    inv = op.inverse
    c.require(same(inv(op(x)), x) and same(op(inv(x)), x), "inverse:linear", lambda: (m, b))
    # the inverse as a composition is the identity function
    c.require(same((inv * op)(x), x) and same((op * inv)(x), x) and same(inv.inverse(x), op(x)), "inverse:composition", lambda: (m, b))
    # element-wise operators
    ms, bs = np.array([rng.choice(M) for _ in x]), np.array([rng.randint(-9, 9) for _ in x])
    vec = linop.LinearOperator(ms, bs)
    c.require(same(vec(x), ms * x + bs) and same(vec.inverse(vec(x)), x), "vector", lambda: (ms, bs))
    c.require(bool(vec == linop.LinearOperator(ms.copy(), bs.copy())), "vector:equal", lambda: (ms, bs))
    i = rng.randrange(len(x))
    for a in (ms, bs):
        d = [ms.copy(), bs.copy()]
        d[0 if a is ms else 1][i] += 1
        other = linop.LinearOperator(*d)
        c.require(not bool(vec == other) and bool(vec != other), "vector:not_equal", lambda: (ms, bs, d))
    c.event("values", len(x))
    c.key(m, b, p, repr(x))


def quantities(c, rng):
    """Linear operators and limits with units"""
    Q = units.Quantity
    m, b = rng.choice(M), rng.randint(-8, 8) / 2
    A = linop.LinearOperator(Q(m, "1/volt"), b)  # V -> 1
    B = linop.LinearOperator(Q(rng.choice(M), "volt"), Q(rng.randint(-3, 3), "volt"))  # 1 -> V
    lo, hi = sorted(rng.randint(-40, 40) / 4 for _ in range(2))
    if lo == hi:
        hi += 1
    cls = rng.choice([linop.Clip, linop.NaNClip])
    C = cls(Q(lo, "volt"), Q(hi, "volt"))
    x = np.array([rng.randint(-80, 80) / 4 for _ in range(6)])

    def clip(v):
        if cls is linop.Clip:
            return np.clip(v, lo, hi)
        return np.where((v < lo) | (v > hi), np.nan, v)

    bm, bb = B.m.magnitude, B.b.magnitude
    F = C * B
    ref = clip(bm * x + bb)
    got = F(x)
    c.require(same(got.to("volt").magnitude, ref), "units:clip_linear", lambda: (str(F), x, got, ref))
    got = F(Q(float(x[0]), "dimensionless"))
    c.require(same(got.to("volt").magnitude, ref[0]), "units:scalar", lambda: (str(F), x[0], got, ref[0]))
    G = A * C
    xv = Q(x * 1000, "millivolt")
    ref = m * clip(x) + b
    got = units.magnitude(G(xv), "dimensionless")
    c.require(same(got, ref), "units:linear_clip", lambda: (str(G), x, got, ref))
    H = A * C * B
    ref = m * clip(bm * x + bb) + b
    got = units.magnitude(H(x), "dimensionless")
    c.require(same(got, ref), "units:three", lambda: (str(H), x, got, ref))
    ok = clip(bm * x + bb) == bm * x + bb
    back = units.magnitude(H.inverse(Q(ref, "dimensionless")), "dimensionless")
    c.require(same(np.asarray(back)[ok], x[ok]), "units:inverse", lambda: (str(H), x, back))
    c.event("values", 18)
    c.key(m, b, bm, bb, lo, hi, cls.__name__, repr(x))


GROUPS = [
    Group("composition", composition, 4000, 100000),
    Group("linear", linear, 1000, 20000),
    Group("quantities", quantities, 600, 10000),
]
MIN_EVENTS = {"values": 20000, "inverted": 5000, "equal": 300}
