"""Fits, peak finding, slicing, rounding and quadrics: exact where an exact answer exists."""
import itertools
import math
from fractions import Fraction
import numpy as np
import scipy.optimize
from lib.vp import Group, Discard
from spectrocrunch.math import fit1d, fit2d, center, slicing, utils, quadrics, linalg, lsqlin, statistics

ID = "C21"
LEVEL = "exploration"
RULE = (
    "linear systems of random size, conditioning, noise and error models solved by every solver and compared "
    "with the normal equations (explicit inverses), optimality (KKT) conditions and closed formulas; "
    "Gaussian peaks of random position, width, correlation and coordinate axes (non-integer, offset, "
    "non-uniform) fitted; peaks searched in images that are translated, flipped and transposed; slicing of "
    "random shapes and thresholds; significant rounding against decimal arithmetic; random quadrics and frames"
)


def close(c, got, exp, sig, rtol=1e-7, atol=1e-9, **kw):
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    c.require(
        got.shape == exp.shape and np.allclose(got, exp, rtol=rtol, atol=atol, equal_nan=True),
        sig, lambda: "{}\n got {}\n exp {}".format(kw, got, exp),
    )


def system(c, rng, square=None):
    n = rng.randint(1, 4)
    m = n if square or rng.random() < 0.25 else n + rng.randint(1, 8)
    A = c.np.uniform(-2, 2, (m, n))
    if np.linalg.cond(A) > 50:
        raise Discard
    return A, m, n


def linear(c, rng):
    A, m, n = system(c, rng)
    x0 = c.np.uniform(-3, 3, n)
    noise = rng.choice([0, 0.1, 1])
    b = A.dot(x0) + noise * c.np.normal(size=m)
    M = np.linalg.inv(A.T.dot(A)).dot(A.T)
    keep = A.copy(), b.copy()
    x = fit1d.lstsq(A, b)
    close(c, x, M.dot(b), "lstsq")
    if not noise:
        close(c, x, x0, "lstsq:exact")
    k = rng.choice(["vare", "cove", "none"] if m > n else ["vare", "cove"])
    kw, cov = {}, None
    if k == "vare":
        kw["vare"] = c.np.uniform(0.1, 4, m)
        cov = M.dot(np.diag(kw["vare"])).dot(M.T)
    elif k == "cove":
        q = c.np.uniform(-1, 1, (m, m))
        kw["cove"] = q.dot(q.T) + np.diag(c.np.uniform(0.1, 1, m))
        cov = M.dot(kw["cove"]).dot(M.T)
    if cov is not None:
        close(c, fit1d.lstsq_cov(A, **kw), cov, "lstsq_cov:" + k, A=A, kw=kw)
        x, s = fit1d.lstsq(A, b, errors=True, **kw)
        close(c, x, M.dot(b), "lstsq:errors")
        close(c, s, np.sqrt(np.diag(cov)), "lstsq:std:" + k, rtol=1e-6, A=A, kw=kw)
        cor = fit1d.cor_from_cov(cov)
        d = np.sqrt(np.diag(cov))
        close(c, cor, cov / d[:, None] / d[None, :], "cor_from_cov")
        if k == "vare":
            scale = rng.choice([2.0, 9.0])
            s2 = fit1d.lstsq(A, b, errors=True, vare=kw["vare"] * scale)[1]
            close(c, s2, s * np.sqrt(scale), "lstsq:std:scale")
            # variances of independent unknowns: (A*A).VAR(x) = VAR(e)
            vx = c.np.uniform(0.5, 2, n)
            if np.linalg.cond(A * A) < 1e4:
                s = fit1d.lstsq_std_indep(A, vare=(A * A).dot(vx))
                close(c, s, np.sqrt(vx), "lstsq_std_indep", rtol=1e-5)
    else:
        A1 = np.hstack([A, np.ones((m, 1))])
        if m > n + 1 and np.linalg.cond(A1) < 50:
            x, s = fit1d.lstsq(A1, b, errors=True)
            r = A1.dot(x) - b
            v = (r**2).sum() / (m - n - 1)
            close(c, s, np.sqrt(v * np.diag(np.linalg.inv(A1.T.dot(A1)))), "lstsq:std:residuals", rtol=1e-6, atol=1e-7)
            if noise:
                s = fit1d.lstsq_std_indep(A1, b=b, x=x)
                e = np.linalg.lstsq(A1 * A1, np.full(m, r.var(ddof=n + 1)), rcond=None)[0]
                with np.errstate(invalid="ignore"):
                    close(c, s, np.sqrt(e), "lstsq_std_indep:residuals", rtol=1e-5)
    c.require(np.array_equal(A, keep[0]) and np.array_equal(b, keep[1]), "input_changed", "")
    if m == n:
        close(c, linalg.cramer(A, b), np.linalg.solve(A, b), "cramer", rtol=1e-6)
        S = A.copy()
        if n > 1:
            S[:] = 0
            S[0] = A[0]
            try:
                linalg.cramer(S, b)
            except RuntimeError:
                pass
            else:
                c.require(False, "cramer:singular", lambda: S)
    c.event("systems")
    c.key(A, b, k)
    if not noise:
        c.trivial()


def best(A, b, lb, ub):
    """exact bounded least squares by enumeration of the active bounds"""
    n = A.shape[1]
    out = None
    for state in itertools.product((-1, 0, 1), repeat=n):
        x = np.zeros(n)
        free = []
        for i, s in enumerate(state):
            if s:
                x[i] = lb[i] if s < 0 else ub[i]
            else:
                free.append(i)
        if not np.all(np.isfinite(x)):
            continue
        if free:
            x[free] = np.linalg.lstsq(A[:, free], b - A.dot(x), rcond=None)[0]
        if np.any(x < lb - 1e-9) or np.any(x > ub + 1e-9):
            continue
        r = ((A.dot(x) - b) ** 2).sum()
        if out is None or r < out[0] - 1e-13:
            out = r, x
    return out


def bounded(c, rng):
    A, m, n = system(c, rng)
    b = A.dot(c.np.uniform(-3, 3, n)) + rng.choice([0, 0.3]) * c.np.normal(size=m)
    k = rng.choice(["nonneg", "bound", "bound", "lsqlin", "lsqnonneg", "lsqnorm"])
    lb, ub = np.zeros(n), np.full(n, np.inf)
    vare = c.np.uniform(0.1, 2, m)
    M = np.linalg.inv(A.T.dot(A)).dot(A.T)
    std = np.sqrt(np.diag((M * vare).dot(M.T)))
    atol = 1e-5
    if k == "nonneg":
        x = fit1d.lstsq_nonnegative(A, b)
        x2, s = fit1d.lstsq_nonnegative(A, b, errors=True, vare=vare)
        close(c, x2, x, k + ":errors")
        close(c, s, std, k + ":std", rtol=1e-6)
    elif k == "bound":
        lb = c.np.uniform(-3, 0, n)
        ub = lb + c.np.uniform(0.5, 3, n)
        x = fit1d.lstsq_bound(A, b, lb, ub)
        x2, s = fit1d.lstsq_bound(A, b, lb, ub, errors=True, vare=vare)
        close(c, x2, x, k + ":errors")
        close(c, s, std, k + ":std", rtol=1e-6)
    elif k == "lsqlin":
        lo, hi = rng.uniform(-2, 0), rng.uniform(0.5, 2)
        lb, ub = np.full(n, lo), np.full(n, hi)
        arg = (lo, hi) if rng.random() < 0.5 else (lb, ub)
        x = lsqlin.lsqlin(A, b, lb=arg[0], ub=arg[1], opts={"show_progress": False})
        x = np.atleast_1d(lsqlin.cvxopt_to_numpy_matrix(x["x"]))
    elif k == "lsqnonneg":
        x = np.atleast_1d(lsqlin.cvxopt_to_numpy_matrix(lsqlin.lsqnonneg(A, b)["x"]))
    else:
        x = np.atleast_1d(lsqlin.cvxopt_to_numpy_matrix(lsqlin.lsqnorm(A, b)["x"]))
        c.require(abs(x.sum() - 1) < 1e-4 and np.all(x > -1e-4) and np.all(x < 1 + 1e-4), "lsqnorm:feasible", lambda: x)
        r = ((A.dot(x) - b) ** 2).sum()
        for _ in range(20):
            y = c.np.dirichlet(np.ones(n))
            for t in (1, 0.1, 0.01):
                z = x + t * (y - x)
                c.require(((A.dot(z) - b) ** 2).sum() >= r - 1e-4 * (1 + r), "lsqnorm:optimal", lambda: (x, z))
        c.event("bounded")
        c.key(k, A, b)
        return
    x = np.asarray(x)
    c.require(x.shape == (n,), k + ":shape", lambda: x)
    e = best(A, b, lb, ub)
    if k == "nonneg" and not np.allclose(x, e[1], atol=1e-4) and np.allclose(x, scipy.optimize.nnls(A, b)[0]):
        raise Discard  # the solver of scipy is not always right (versions before 1.16)
    if k.startswith("lsq"):
        # interior point method: objective and constraints within its tolerances
        r = ((A.dot(x) - b) ** 2).sum()
        ok = np.all(x >= lb - 1e-4) and np.all(x <= ub + 1e-4) and r <= e[0] + 1e-4 * (1 + (b**2).sum())
        c.require(ok, k + ":optimum", lambda: "got {} exp {}\nA={}\nb={}\n{} {}".format(x, e[1], A, b, lb, ub))
    else:
        c.require(np.allclose(x, e[1], atol=atol * (1 + np.abs(e[1]).max())), k + ":optimum", lambda: "got {} exp {}\nA={}\nb={}\n{} {}".format(x, e[1], A, b, lb, ub))
    c.event("bounded")
    c.key(k, A, b)
    if np.allclose(e[1], M.dot(b)):
        c.trivial()


def lines(c, rng):
    n = rng.randint(3, 30)
    x = c.np.uniform(-10, 10, n)
    if np.ptp(x) < 1:
        raise Discard
    m, b = rng.uniform(-5, 5), rng.uniform(-5, 5)
    noise = rng.choice([0, 0.5])
    y = m * x + b + noise * c.np.normal(size=n)
    A = np.vstack([x, np.ones(n)]).T
    C = np.linalg.inv(A.T.dot(A))
    sol = C.dot(A.T).dot(y)
    r = A.dot(sol) - y
    std = np.sqrt(np.diag(C) * (r**2).sum() / (n - 2))
    xn, yn = np.insert(x, 1, np.nan), np.insert(y, 1, 5)
    xn, yn = np.insert(xn, n, 3.0), np.insert(yn, n, np.nan)
    for name, f, a in (("linfit", fit1d.linfit, (x, y)), ("linfit2", fit1d.linfit2, (x, y)),
                       ("nanlinfit", fit1d.nanlinfit, (xn, yn)), ("nanlinfit2", fit1d.nanlinfit2, (xn, yn))):
        close(c, f(*a), sol, name, rtol=1e-6, atol=1e-6)
        s, e = f(*a, errors=True)
        close(c, s, sol, name + ":errors", rtol=1e-6, atol=1e-6)
        if noise:
            close(c, e, std, name + ":std", rtol=1e-4, atol=1e-7)
    if not noise:
        close(c, sol, [m, b], "exact", rtol=1e-6, atol=1e-6)
    v = c.np.uniform(0.1, 2, n)
    M = C.dot(A.T)
    s, e = fit1d.linfit(x, y, errors=True, vare=v)
    close(c, e, np.sqrt(np.diag((M * v).dot(M.T))), "linfit:vare", rtol=1e-6)
    m0 = (x * y).sum() / (x * x).sum()
    close(c, fit1d.linfit_zerointercept(x, y), m0, "zerointercept", rtol=1e-6)
    close(c, fit1d.linfit_zerointercept2(x, y), m0, "zerointercept2", rtol=1e-6)
    s, e = fit1d.linfit_zerointercept(x, y, errors=True, vare=v)
    close(c, s, m0, "zerointercept:errors")
    close(c, e, np.sqrt((x * x * v).sum()) / (x * x).sum(), "zerointercept:vare", rtol=1e-6)
    if noise:
        e = fit1d.linfit_zerointercept2(x, y, errors=True)[1]
        close(c, e, np.sqrt(((y - m0 * x) ** 2).sum() / (n - 1) / (x * x).sum()), "zerointercept2:std", rtol=1e-5)
    c.event("lines")
    c.key(x, y)


def axis(c, rng, n):
    k = rng.randint(0, 3)
    if k == 0:
        return np.arange(n).astype(float) if rng.random() < 0.5 else np.arange(n)
    d = rng.uniform(0.05, 20)
    off = rng.choice([-1000.0, -3.3, 0.25, 100.0])
    if k == 1:
        return off + d * np.arange(n)
    if k == 2:
        return off - d * np.arange(n)
    return off + d * (np.arange(n) + c.np.uniform(-0.3, 0.3, n))


def peak1(c, rng):
    n = rng.randint(8, 40)
    x = axis(c, rng, n)
    d = abs(x[-1] - x[0]) / (n - 1)
    x0 = x[0] + (x[-1] - x[0]) * rng.uniform(0.25, 0.75)
    sx = d * rng.uniform(1, n / 8)
    A = rng.choice([1, 0.01, 1e4]) * rng.uniform(0.5, 2)
    data = A / (np.sqrt(2 * np.pi) * sx) * np.exp(-((x - x0) ** 2) / (2 * sx**2))
    close(c, fit1d.gaussian(x, x0, sx, A), data, "gaussian1")
    p, ok = fit1d.fitgaussian(x, data)
    c.require(ok, "fit1:success", lambda: (x, x0, sx, A))
    close(c, [p[0], abs(p[1]), p[2] * np.sign(p[1])], [x0, sx, A], "fit1", rtol=1e-3, atol=1e-3 * min(sx, A), x=x, true=(x0, sx, A), fitted=p)
    c.event("peaks")
    c.key(x, x0, sx, A)


def peak2(c, rng):
    ny, nx = rng.randint(8, 20), rng.randint(8, 20)
    ax, ay = axis(c, rng, nx), axis(c, rng, ny)
    dx, dy = abs(ax[-1] - ax[0]) / (nx - 1), abs(ay[-1] - ay[0]) / (ny - 1)
    y, x = np.meshgrid(ay, ax, indexing="ij")
    x0 = ax[0] + (ax[-1] - ax[0]) * rng.uniform(0.3, 0.7)
    y0 = ay[0] + (ay[-1] - ay[0]) * rng.uniform(0.3, 0.7)
    sx, sy = dx * rng.uniform(1, nx / 8), dy * rng.uniform(1, ny / 8)
    rho = rng.uniform(-0.5, 0.5)
    A = rng.uniform(0.5, 2) * sx * sy
    num = (x - x0) ** 2 / sx**2 - 2 * rho / (sx * sy) * (x - x0) * (y - y0) + (y - y0) ** 2 / sy**2
    data = A / (2 * np.pi * sx * sy * np.sqrt(1 - rho**2)) * np.exp(-num / (2 * (1 - rho**2)))
    close(c, fit2d.gaussian(x, y, x0, y0, sx, sy, rho, A), data, "gaussian2")
    p, ok = fit2d.fitgaussian(x, y, data)
    c.require(ok, "fit2:success", lambda: (ax, ay, x0, y0, sx, sy))
    close(c, [(p[0] - x0) / sx, (p[1] - y0) / sy, abs(p[2]) / sx - 1, abs(p[3]) / sy - 1], np.zeros(4), "fit2", atol=1e-2, ax=ax, ay=ay, true=(x0, y0, sx, sy, rho, A), fitted=p)
    c.event("peaks")
    c.key(ax, ay, x0, y0)


def peaks(c, rng):
    """position of the maximum of images"""
    two = rng.random() < 0.65
    shape = tuple(rng.randint(7, 20) for _ in range(2)) if two else rng.choice([(1, rng.randint(7, 20)), (rng.randint(7, 20), 1), (rng.randint(7, 20),)])
    idx = np.indices(shape).astype(float)
    cen = np.array([rng.uniform(2, n - 3) if n > 1 else 0 for n in shape])
    width = rng.uniform(1.2, 4)
    ax = [i for i, n in enumerate(shape) if n > 1]
    data = 100 * np.exp(-sum((idx[i] - cen[i]) ** 2 for i in ax) / (2 * width**2))
    exp = cen[ax] if two else cen[ax[0]]
    # exact maximum and minimum
    img = c.np.permutation(data.size).reshape(shape).astype(float)
    if rng.random() < 0.4:
        img.flat[c.np.randint(0, data.size, 3)] = np.nan
    for f, val in ((center.fmax, np.nanmax(img)), (center.fmin, np.nanmin(img))):
        r = f(img)
        got = img[tuple(r)] if two else img.flat[r]
        c.require(got == val, "extreme:" + f.__name__, lambda: (shape, r, got, val))
    top = center.fmax(data)
    for name, f, tol in (("fcentroid", center.fcentroid, 0.75), ("fgaussmax", center.fgaussmax, 0.02)):
        r = f(data)
        inside = np.all(np.asarray(r) >= 0) and np.all(np.asarray(r) <= np.array([shape[i] - 1 for i in ax]))
        c.require(np.shape(r) == np.shape(exp) and inside, name + ":shape", lambda: (shape, r, exp))
        # as far as the window around the maximum allows
        fitted = name == "fcentroid" or not np.array_equal(r, top)
        c.require(np.all(np.abs(r - exp) <= (tol if fitted else 0.75)), name, lambda: (shape, cen, width, r))
        # mirrored and transposed images
        g = f(data[::-1])
        m = np.array(r, float)
        if two:
            m[0] = shape[0] - 1 - m[0]
        elif shape[0] > 1:
            m = shape[0] - 1 - m
        c.require(np.allclose(g, m, atol=0.05), name + ":mirror", lambda: (shape, cen, r, g))
        g = f(data.T)
        c.require(np.allclose(g, r[::-1] if two else r, atol=0.05), name + ":transpose", lambda: (shape, cen, r, g))
        c.event("centers")
        # a symmetric peak on a pixel
        pix = np.array([int(round(v)) for v in cen])
        sym = 100 * np.exp(-sum((idx[i] - pix[i]) ** 2 for i in ax) / (2 * width**2))
        s = f(sym)
        c.require(np.allclose(s, pix[ax] if two else pix[ax[0]], atol=1e-3), name + ":symmetric", lambda: (shape, pix, s))
        # missing pixels (away from the maximum) do not matter more than noise
        if name == "fgaussmax":
            bad = data.copy()
            j = c.np.randint(0, data.size, 4)
            j = [q for q in j if bad.flat[q] < 80]
            bad.flat[j] = np.nan
            s = f(bad)
            c.require(
                np.all(np.isfinite(s)) and np.all(np.abs(s - exp) < 1), name + ":missing", lambda: (shape, cen, width, s, exp)
            )
    c.key(shape, cen, width)


def slices(c, rng):
    ndim = rng.randint(1, 4)
    shape = tuple(rng.choice([1, 2, 3, 5, 8, 12]) for _ in range(ndim))
    dtype = rng.choice([np.float32, np.float64, np.uint8, np.int16, "f4", np.dtype("c16")])
    item = np.dtype(dtype).itemsize
    total = int(np.prod(shape)) * item
    mb = rng.choice([100, total / 1024.0**2, total * rng.random() / 1024**2, (total - item) / 1024.0**2, item / 1024.0**2, rng.choice(shape) * item / 1024.0**2])
    a = np.zeros(shape, dtype=int)
    sizes = []
    kw = {} if mb == 100 and rng.random() < 0.5 else {"mb_threshold": mb}
    for ind in slicing.slice_generator(shape, dtype, **kw):
        c.require(len(ind) == ndim, "slice:ndim", lambda: (shape, ind))
        a[ind] += 1
        sizes.append(a[ind].size)
        c.event("slices")
    c.require(np.all(a == 1), "slice:cover", lambda: (shape, dtype, mb, a))
    fast = shape[0] * item / 1024.0**2
    c.require(
        max(sizes) * item / 1024.0**2 <= max(mb, fast) * (1 + 1e-9), "slice:size", lambda: (shape, dtype, mb, sizes)
    )
    # not smaller than necessary
    n = len(set(sizes)) == 1
    c.require(n, "slice:equal", lambda: sizes)
    prods = np.cumprod(shape)
    fit = [int(p) for p in prods if p * item / 1024.0**2 <= mb]
    c.require(sizes[0] == (fit[-1] if fit else prods[0]), "slice:largest", lambda: (shape, dtype, mb, sizes[0], fit))
    c.key(shape, item, mb)
    if len(sizes) < 2:
        c.trivial()


def rounding(c, rng):
    x = rng.choice([-1, 1]) * rng.uniform(1, 10) * 10.0 ** rng.randint(-8, 8)
    if rng.random() < 0.2:
        x = float(rng.randint(1, 10**6))
    sig = rng.randint(1, 7)
    e = math.floor(math.log10(abs(x)))
    if not 10.0**e <= abs(x) < 10.0 ** (e + 1):
        raise Discard
    n = sig - 1 - e
    c.require(utils.sig_to_ndigits(x, sig) == n, "sig_to_ndigits", lambda: (x, sig))
    step = 10.0 ** (-n)
    tol = step * 1e-6
    for name, f, lo, hi in (("round", utils.round_sig, -0.5, 0.5), ("ceil", utils.ceil_sig, 0, 1), ("floor", utils.floor_sig, -1, 0)):
        y = f(x, sig)
        k = y / step
        c.require(abs(k - round(k)) < 1e-6, name + ":digits", lambda: (x, sig, y))
        c.require(lo * step - tol <= y - x <= hi * step + tol, name + ":distance", lambda: (x, sig, y))
        c.event("roundings")
    s = ("{" + utils.floatformat(x, sig) + "}").format(x)
    c.require(abs(float(s) - x) <= 0.5 * max(step, 0) + tol or abs(float(s) - x) <= 0.5000001, "floatformat", lambda: (x, sig, s))
    if n > 0:
        c.require(abs(float(s) - x) <= 0.5 * step + tol, "floatformat:digits", lambda: (x, sig, s))
    # integers in the same proportion
    f = [Fraction(rng.randint(1, 60), rng.randint(1, 60)) for _ in range(rng.randint(1, 5))]
    r = utils.roundlist([float(q) for q in f])
    c.require(
        all(int(v) == v for v in r) and all(Fraction(int(r[0])) * q == Fraction(int(v)) * f[0] for v, q in zip(r, f)),
        "roundlist", lambda: (f, r),
    )
    c.require(math.gcd(*[int(v) for v in r]) >= 1 and r[0] > 0, "roundlist:positive", lambda: (f, r))
    ints = [rng.randint(1, 60) for _ in range(rng.randint(1, 5))]
    m = utils.lcm(ints)
    c.require(m == math.lcm(*ints), "lcm", lambda: (ints, m))
    v = c.np.uniform(-1, 5, rng.randint(1, 6))
    w = c.np.uniform(0.1, 5, v.size)
    close(c, utils.weightedsum(v), v.mean(), "weightedsum")
    close(c, utils.weightedsum(v, w), (v * w).sum() / w.sum(), "weightedsum:weights")
    close(c, utils.weightedsum(v, list(w)), (v * w).sum() / w.sum(), "weightedsum:list")
    close(c, utils.weightedsum(v[0], w), v[0], "weightedsum:scalar")
    img = c.np.uniform(0.01, 5, (3, 4))
    ls = utils.logscale(img)
    close(c, ls, 1 - np.log(img / img.max()) / np.log(img.min() / img.max()), "logscale", rtol=1e-6)
    # outliers
    z = c.np.normal(size=rng.randint(5, 40))
    k = rng.randint(0, 3)
    j = c.np.choice(z.size, k, replace=False) if k else np.array([], int)
    z[j] += 1e3 * (1 + np.arange(k))
    if z.size > 4 * k + 4:
        out = statistics.outlierdetection(z, 50)
        dev = np.abs(z - np.median(z))
        c.require(np.array_equal(out, dev > 50 * 1.4826 * np.median(dev)), "outliers", lambda: (z, out))
        if k:
            out = statistics.outlierdetection(z, 3, noutliers=k)
            c.require(np.array_equal(np.where(out)[0], np.sort(j)), "outliers:number", lambda: (z, out))
    c.key(x, sig, f)


def quadric(c, rng):
    n = rng.choice([2, 3, 3])
    kind = rng.choice(["plane", "ellipsoid", "cylinder"])
    ints = rng.random() < 0.3
    gen = (lambda s: c.np.randint(1, 9, s)) if ints else (lambda s: c.np.uniform(-5, 5, s))
    x = c.np.uniform(-8, 8, (30, n))
    if kind == "plane":
        x0, u = gen(n), gen(n)
        A = quadrics.plane(list(x0) if rng.random() < 0.3 else x0, list(u) if rng.random() < 0.3 else u)
        val = (x - x0).dot(u)
    else:
        axis = rng.randrange(n) if kind == "cylinder" else None
        keep = [i for i in range(n) if i != axis]
        x0, a = gen(len(keep)), np.abs(gen(len(keep))) + (0 if ints else 0.2)
        A = quadrics.ellipsoid(x0, a) if axis is None else quadrics.cylinder(x0, a, axis)
        val = (((x[:, keep] - x0) / a) ** 2).sum(axis=1) - 1
    xh = np.hstack([x, np.ones((30, 1))])
    c.require(A.shape == (n + 1, n + 1), "quadric:shape", lambda: A)
    close(c, (xh.dot(A) * xh).sum(axis=1), val, "quadric:" + kind, atol=1e-8, x0=x0)
    C = np.eye(n + 1)
    C[:n] = c.np.uniform(-2, 2, (n, n + 1))
    if abs(np.linalg.det(C)) < 0.1:
        raise Discard
    B = quadrics.change_of_frame(A, C)
    xp = np.linalg.solve(C, xh.T).T
    close(c, (xp.dot(B) * xp).sum(axis=1), val, "quadric:frame", rtol=1e-5, atol=1e-5)
    c.event("quadrics")
    c.key(kind, A, C)


GROUPS = [
    Group("linear", linear, 600*4, 20000),
    Group("bounded", bounded, 300*4, 8000),
    Group("lines", lines, 300*4, 8000),
    Group("fit1", peak1, 300*4, 8000),
    Group("fit2", peak2, 150*4, 3000),
    Group("peaks", peaks, 300*4, 8000),
    Group("slices", slices, 800*4, 20000),
    Group("rounding", rounding, 500*4, 20000),
    Group("quadrics", quadric, 300*4, 8000),
]
